//! Running the approval script: as some user, with the scratch directory
//! shown as /var/run/sudo_pair and with stand-ins for the commands that
//! would connect, become someone else or set up the terminal.

use crate::world::*;
use crate::SCRIPT;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

pub const STUBS: [&str; 12] = ["sudo", "socat", "stty", "clear", "evil", "nc", "ncat", "su", "doas", "pkexec", "runuser", "sg"];

fn hex(b: &[u8]) -> String {
    b.iter().map(|c| format!("{:02x}", c)).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

/// When run under one of the stand-ins' names: record that, and how.
pub fn stub_main() -> Option<i32> {
    let a: Vec<Vec<u8>> = std::env::args_os().map(|x| x.into_vec()).collect();
    let me = a.first()?.rsplit(|c| *c == b'/').next()?.to_vec();
    let me = String::from_utf8(me).ok()?;
    if !STUBS.contains(&me.as_str()) {
        return None;
    }
    let log = std::env::var_os("MC_STUB_LOG")?;
    let mut line = me.clone();
    for x in &a[1..] {
        line.push_str(" -");
        line.push_str(&hex(x));
    }
    line.push('\n');
    use std::io::Write;
    if let Ok(mut f) = std::fs::OpenOptions::new().append(true).open(log) {
        let _ = f.write_all(line.as_bytes());
    }
    if std::env::var_os("MC_STUB_TTY").is_some() {
        return Some(stub_tty(&me, &a[1..]));
    }
    if me == "stty" && a.get(1).map_or(false, |x| x == b"-g") {
        println!("500:5:bf:8a3b:3:1c:7f:15:4:0:1:0:11:13:1a:0:12:f:17:16:0:0:0:0:0:0:0:0:0:0:0:0:0:0:0:0");
    }
    let fail = std::env::var("MC_STUB_FAIL").unwrap_or_default();
    Some(if fail.split(',').any(|f| f == me) { 1 } else { 0 })
}

fn note_line(l: &str) {
    use std::io::Write;
    if let Some(p) = std::env::var_os("MC_STUB_LOG") {
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).open(p) {
            let _ = f.write_all(format!("{}\n", l).as_bytes());
        }
    }
}

pub fn termios_of(fd: i32) -> Option<libc::termios> {
    unsafe {
        let mut t: libc::termios = std::mem::zeroed();
        if libc::tcgetattr(fd, &mut t) == 0 { Some(t) } else { None }
    }
}

/// All of it, for comparing.
pub fn termios_text(t: &libc::termios) -> String {
    format!("{:x}:{:x}:{:x}:{:x}:{}:{}", t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag, t.c_line, t.c_cc.iter().map(|c| format!("{:x}", c)).collect::<Vec<_>>().join(","))
}

/// On a real terminal: the real stty, and something that sits there like
/// socat would.  MC_STUB_AT is `name:n:when:signal:whom`, MC_STUB_END how
/// socat ends.
fn stub_tty(me: &str, args: &[Vec<u8>]) -> i32 {
    use std::os::unix::ffi::OsStrExt;
    let log = std::env::var("MC_STUB_LOG").unwrap_or_default();
    let text = std::fs::read_to_string(&log).unwrap_or_default();
    let count = |m: &str| text.lines().filter(|l| l.split(' ').next() == Some(m)).count();
    let n = count(me);
    // a setting restored afterwards is left alone
    let late = me == "stty" && count("socat") > 0;
    let t = termios_of(0);
    note_line(&format!("@termios {} {}", me, t.map_or("none".into(), |t| termios_text(&t))));
    let at = std::env::var("MC_STUB_AT").unwrap_or_default();
    let at: Vec<&str> = at.split(':').collect();
    let here = !late && at.len() == 5 && at[0] == me && at[1].parse() == Ok(n);
    let shoot = || unsafe {
        let sig: i32 = at[3].parse().unwrap_or(15);
        let leader = libc::getpgrp();
        libc::kill(if at[4] == "group" { -leader } else { leader }, sig);
    };
    if here && at[2] == "before" {
        shoot();
    }
    if here && at[2] == "fail" {
        return 1;
    }
    let mut code = 0;
    if me == "stty" {
        code = match Command::new("/usr/bin/stty").args(args.iter().map(|a| std::ffi::OsStr::from_bytes(a))).env_remove("LD_PRELOAD").status() {
            Ok(s) => s.code().unwrap_or(1),
            Err(_) => 1,
        };
    }
    if me == "socat" {
        let end = std::env::var("MC_STUB_END").unwrap_or_default();
        let (how, what) = end.split_once(':').unwrap_or((&end, ""));
        extern "C" fn bye(_: i32) {
            unsafe { libc::_exit(130) }
        }
        match how {
            "exit" => return what.parse().unwrap_or(0),
            "kill" => unsafe {
                libc::kill(libc::getpid(), what.parse().unwrap_or(9));
            },
            "key" | "wait" => unsafe {
                if what == "catch" {
                    libc::signal(libc::SIGINT, bye as *const () as usize);
                }
                note_line(&format!("@ready {}", libc::getpid()));
                libc::alarm(8);
                let mut b = [0u8; 1];
                let r = libc::read(0, b.as_mut_ptr() as *mut _, 1);
                note_line(&if r == 1 { format!("@byte {:02x}", b[0]) } else { format!("@eof {}", r) });
                return if r == 1 { 0 } else { 1 };
            },
            _ => (),
        }
    }
    if here && at[2] == "after" {
        shoot();
    }
    code
}

/// Puts the script, its stand-ins and the shim where anybody can run them.
pub fn setup() -> Result<(), String> {
    use std::os::unix::fs::{symlink, PermissionsExt};
    let sc = unsafe { &mut SCRIPT };
    let mut why = String::new();
    for base in [sc.root.clone(), format!("/tmp/mcs.{}", std::process::id()), format!("/var/tmp/mcs.{}", std::process::id())] {
        let d = format!("{}/sbin", base);
        let go = || -> std::io::Result<bool> {
            std::fs::create_dir_all(&d)?;
            for p in [&base, &d] {
                std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755))?;
            }
            std::fs::copy("/proc/self/exe", format!("{}/mcstub", d))?;
            std::fs::copy(&sc.shim, format!("{}/libshim.so", d))?;
            std::fs::copy(format!("{}/sample/bin/sudo_approve", sc.repo), format!("{}/sudo_approve", d))?;
            for f in ["mcstub", "libshim.so", "sudo_approve"] {
                std::fs::set_permissions(format!("{}/{}", d, f), std::fs::Permissions::from_mode(0o755))?;
            }
            for s in STUBS {
                symlink("mcstub", format!("{}/{}", d, s))?;
            }
            // some places do not let files be executed
            let st = Command::new(format!("{}/clear", d)).env("MC_STUB_LOG", "/dev/null").status()?;
            Ok(st.success())
        };
        match go() {
            Ok(true) => {
                sc.bin = d;
                return Ok(());
            }
            Ok(false) => why = "a stand-in fails".into(),
            Err(e) => why = format!("{}: {}", d, e),
        }
        let _ = std::fs::remove_dir_all(if base == sc.root { &d } else { &base });
    }
    Err(why)
}

/// The directory made outside of the scratch directory, if any.
pub fn teardown() {
    let sc = unsafe { &SCRIPT };
    if let Some(b) = sc.bin.strip_suffix("/sbin") {
        if b != sc.root && b.contains("/mcs.") {
            let _ = std::fs::remove_dir_all(b);
        }
    }
}

#[derive(Clone)]
pub struct Call {
    pub who: Cred,
    pub dir: Vec<u8>,
    pub args: Vec<Vec<u8>>,
    pub env: Vec<(Vec<u8>, Vec<u8>)>,
    /// which touches of the socket fail
    pub vanish: String,
    /// which stand-ins fail
    pub fail: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cmd {
    pub name: String,
    pub args: Vec<Vec<u8>>,
}

#[derive(Clone, Debug)]
pub struct Ran {
    pub cmds: Vec<Cmd>,
    pub touched: Vec<Vec<u8>>,
    pub code: Option<i32>,
}

impl Call {
    pub fn new(who: Cred, args: &[&[u8]]) -> Call {
        Call { who, dir: w().dir.clone(), args: args.iter().map(|a| a.to_vec()).collect(), env: vec![], vanish: String::new(), fail: String::new() }
    }
    pub fn env(mut self, k: &str, v: &[u8]) -> Call {
        self.env.push((k.as_bytes().to_vec(), v.to_vec()));
        self
    }
}

pub fn script_path() -> Vec<u8> {
    unsafe { format!("{}/sudo_approve", SCRIPT.bin).into_bytes() }
}

fn logs() -> (String, String) {
    let log = format!("{}/stub.log", w().scratch);
    let touch = format!("{}/touch.log", w().scratch);
    (log, touch)
}

fn command(c: &Call) -> Command {
    let bin = unsafe { SCRIPT.bin.clone() };
    // anyone may append to these
    let (log, touch) = logs();
    for f in [&log, &touch] {
        use std::os::unix::fs::PermissionsExt;
        std::fs::write(f, b"").unwrap();
        std::fs::set_permissions(f, std::fs::Permissions::from_mode(0o666)).unwrap();
    }
    use std::ffi::OsStr;
    let mut cmd = Command::new(format!("{}/sudo_approve", bin));
    cmd.args(c.args.iter().map(|a| OsStr::from_bytes(a)))
        .env_clear()
        .env("PATH", format!("{}:/usr/bin:/bin", bin))
        .env("HOME", "/")
        .env("TERM", "dumb")
        .env("LD_PRELOAD", format!("{}/libshim.so", bin))
        .env("MC_SHIM_DIR", OsStr::from_bytes(&c.dir))
        .env("MC_SHIM_BIN", &bin)
        .env("MC_SHIM_TOUCH", &touch)
        .env("MC_STUB_LOG", &log)
        .env("MC_SHIM_VANISH", &c.vanish)
        .env("MC_STUB_FAIL", &c.fail)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .current_dir("/");
    if std::env::var_os("MC_SCRIPT_STDERR").is_some() {
        cmd.stderr(Stdio::inherit()).stdout(Stdio::inherit());
    }
    for (k, v) in &c.env {
        cmd.env(OsStr::from_bytes(k), OsStr::from_bytes(v));
    }
    if c.who.uid == 0 {
        cmd.env("MC_SHIM_UID", "0");
    }
    // never as the real root
    let (uid, gid) = if c.who.uid == 0 { (65534, 65534) } else { (c.who.uid, c.who.gid) };
    let groups = if c.who.uid == 0 { vec![] } else { c.who.groups.clone() };
    unsafe {
        cmd.pre_exec(move || {
            libc::signal(libc::SIGINT, libc::SIG_DFL);
            libc::umask(0o022);
            let mut none: libc::sigset_t = std::mem::zeroed();
            libc::sigemptyset(&mut none);
            libc::sigprocmask(libc::SIG_SETMASK, &none, std::ptr::null_mut());
            if libc::setgroups(groups.len(), groups.as_ptr()) != 0 || libc::setresgid(gid, gid, gid) != 0 || libc::setresuid(uid, uid, uid) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            libc::alarm(25);
            Ok(())
        });
    }
    cmd
}

pub fn run(c: &Call) -> Ran {
    let mut cmd = command(c);
    let code = match cmd.spawn() {
        Ok(mut ch) => loop {
            match ch.wait() {
                Ok(s) => break s.code().or(s.signal().map(|x| -x)),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                Err(_) => break None,
            }
        },
        Err(e) => {
            eprintln!("mc: cannot run the script: {}", e);
            std::process::exit(2)
        }
    };
    collect(code)
}

fn collect(code: Option<i32>) -> Ran {
    let (log, touch) = logs();
    let cmds = std::fs::read_to_string(&log)
        .unwrap_or_default()
        .lines()
        .filter(|l| !l.starts_with('@'))
        .map(|l| {
            let mut p = l.split(' ');
            Cmd { name: p.next().unwrap_or("").to_string(), args: p.map(|x| unhex(&x[1.min(x.len())..])).collect() }
        })
        .collect();
    let touched = std::fs::read(&touch).unwrap_or_default().split(|b| *b == 0).filter(|x| !x.is_empty()).map(|x| x.to_vec()).collect();
    let r = Ran { cmds, touched, code };
    let wd = w();
    for t in &r.touched {
        wd.note(t);
        wd.leave(&Op::new("script_touch", Cls::None), 0, 0, false);
    }
    for c in &r.cmds {
        wd.note(show_cmd(c).as_bytes());
        wd.leave(&Op::new("script_runs", Cls::None), 0, 0, false);
    }
    wd.steps += (r.touched.len() + r.cmds.len()) as u64;
    wd.total_steps += (r.touched.len() + r.cmds.len()) as u64;
    r
}

/// A terminal of the approver's own.
pub struct Tty {
    pub master: i32,
    pub slave: i32,
}

impl Tty {
    pub fn new() -> Tty {
        unsafe {
            let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC | libc::O_NONBLOCK);
            let mut b = [0 as libc::c_char; 64];
            if m < 0 || libc::grantpt(m) != 0 || libc::unlockpt(m) != 0 || libc::ptsname_r(m, b.as_mut_ptr(), b.len()) != 0 {
                eprintln!("mc: no terminal: {}", std::io::Error::last_os_error());
                std::process::exit(2);
            }
            let s = libc::open(b.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
            if s < 0 {
                eprintln!("mc: no terminal: {}", std::io::Error::last_os_error());
                std::process::exit(2);
            }
            Tty { master: m, slave: s }
        }
    }
    pub fn hang_up(&mut self) {
        unsafe { libc::close(self.master) };
        self.master = -1;
    }
}

impl Drop for Tty {
    fn drop(&mut self) {
        unsafe {
            if self.master >= 0 {
                libc::close(self.master);
            }
            libc::close(self.slave);
        }
    }
}

/// How a connection ends.
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Exit(i32),
    Dies(i32),
    /// a key, and whether socat catches the signal it may cause
    Key(u8, bool),
    /// a signal to the script alone
    Signal(i32),
    /// and to all of its processes
    Group(i32),
    HangUp,
}

#[derive(Clone, Debug, Default)]
pub struct TtyRan {
    pub did: Option<Did>,
    /// at each command: its name and the terminal's settings then
    pub seen: Vec<(String, String)>,
    /// the byte that reached socat
    pub byte: Option<u8>,
    /// everything the terminal displayed
    pub shown: Vec<u8>,
    /// socat outlived the script
    pub lives: bool,
    /// the script had to be ended
    pub stuck: bool,
    pub code: Option<i32>,
}

/// Runs the script on a terminal.
pub fn run_tty(c: &Call, t: &mut Tty, end: &End, at: &str) -> TtyRan {
    let (log, _) = logs();
    let mut c = c.clone().env("MC_STUB_TTY", b"1").env("MC_STUB_AT", at.as_bytes());
    let e = match end {
        End::Exit(n) => format!("exit:{}", n),
        End::Dies(n) => format!("kill:{}", n),
        End::Key(_, catch) => format!("key:{}", if *catch { "catch" } else { "" }),
        _ => "wait:".to_string(),
    };
    c = c.env("MC_STUB_END", e.as_bytes());
    let mut cmd = command(&c);
    let slave = t.slave;
    let dup = || unsafe {
        use std::os::unix::io::FromRawFd;
        Stdio::from_raw_fd(libc::fcntl(slave, libc::F_DUPFD_CLOEXEC, 3))
    };
    cmd.stdin(dup()).stdout(dup()).stderr(dup());
    unsafe {
        cmd.pre_exec(move || {
            libc::setsid();
            if libc::ioctl(0, libc::TIOCSCTTY as _, 0) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            for s in [libc::SIGHUP, libc::SIGQUIT, libc::SIGTERM, libc::SIGTSTP, libc::SIGPIPE] {
                libc::signal(s, libc::SIG_DFL);
            }
            Ok(())
        });
    }
    let mut ch = match cmd.spawn() {
        Ok(ch) => ch,
        Err(e) => {
            eprintln!("mc: cannot run the script on a terminal: {}", e);
            std::process::exit(2)
        }
    };
    drop(cmd);
    let mut r = TtyRan::default();
    let pid = ch.id() as i32;
    let begun = std::time::Instant::now();
    let mut told = false;
    let socat = |text: &str| text.lines().find_map(|l| l.strip_prefix("@ready ").and_then(|x| x.parse::<i32>().ok()));
    let slurp = |m: i32, v: &mut Vec<u8>| {
        let mut b = [0u8; 4096];
        while m >= 0 {
            let n = unsafe { libc::read(m, b.as_mut_ptr() as *mut _, b.len()) };
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&b[..n as usize]);
        }
    };
    loop {
        slurp(t.master, &mut r.shown);
        match ch.try_wait() {
            Ok(Some(s)) => {
                r.code = s.code().or(s.signal().map(|x| -x));
                break;
            }
            _ => (),
        }
        if !told {
            let text = std::fs::read_to_string(&log).unwrap_or_default();
            if socat(&text).is_some() {
                told = true;
                r.shown.clear();
                unsafe {
                    match end {
                        End::Key(k, _) => {
                            libc::write(t.master, [*k].as_ptr() as *const _, 1);
                        }
                        End::Signal(s) => {
                            libc::kill(pid, *s);
                        }
                        End::Group(s) => {
                            libc::kill(-pid, *s);
                        }
                        End::HangUp => t.hang_up(),
                        _ => (),
                    }
                }
            }
        }
        if begun.elapsed().as_secs() > 20 {
            r.stuck = true;
            unsafe { libc::kill(-pid, libc::SIGKILL) };
            let _ = ch.wait();
            break;
        }
        std::thread::sleep(std::time::Duration::from_micros(500));
    }
    slurp(t.master, &mut r.shown);
    let text = std::fs::read_to_string(&log).unwrap_or_default();
    if let Some(p) = socat(&text) {
        // it may take a moment to die
        for i in 0..200 {
            r.lives = unsafe { libc::kill(p, 0) } == 0 && !zombie(p);
            if !r.lives || i == 199 {
                break;
            }
            if matches!(end, End::Signal(_)) {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
    }
    // the group is the script's own; it has ended
    unsafe { libc::kill(-pid, libc::SIGKILL) };
    for l in text.lines() {
        let mut p = l.split(' ');
        match p.next() {
            Some("@termios") => r.seen.push((p.next().unwrap_or("").into(), p.next().unwrap_or("").into())),
            Some("@byte") => r.byte = p.next().and_then(|x| u8::from_str_radix(x, 16).ok()),
            _ => (),
        }
    }
    r.did = Some(did(&collect(r.code)));
    r
}

fn zombie(p: i32) -> bool {
    std::fs::read_to_string(format!("/proc/{}/stat", p)).map_or(true, |s| s.rsplit(')').next().map_or(false, |x| x.trim_start().starts_with('Z')))
}

/// A socket file as sudo_pair would leave it.
pub fn make_socket(name: &str, uid: u32, gid: u32, mode: u32) {
    let mut p = w().dir.clone();
    p.push(b'/');
    p.extend_from_slice(name.as_bytes());
    let mut z = p.clone();
    z.push(0);
    unsafe {
        libc::unlink(z.as_ptr() as *const _);
        let fd = libc::socket(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        crate::props::c04::bind_raw(fd, &p);
        libc::close(fd);
        libc::chown(z.as_ptr() as *const _, uid, gid);
        libc::chmod(z.as_ptr() as *const _, mode);
    }
    crate::sess::dir_dirty();
}

/// What the script did, as far as it matters.
#[derive(Clone, Debug, PartialEq)]
pub enum Did {
    Nothing,
    /// connected to this path
    Connect(Vec<u8>),
    /// ran itself again through sudo
    Sudo { user: Option<Vec<u8>>, group: Option<Vec<u8>>, argv: Vec<Vec<u8>> },
    Bad(String),
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

pub fn show_cmd(c: &Cmd) -> String {
    let mut s = c.name.clone();
    for a in &c.args {
        s.push_str(&format!(" {:?}", lossy(a)));
    }
    s
}

fn socat_path(c: &Cmd) -> Option<Vec<u8>> {
    let low = |a: &[u8]| a.to_ascii_lowercase();
    let mut found = None;
    if c.name == "socat" {
        for a in c.args.iter() {
            let l = low(a);
            if a == b"-u" || a == b"-U" {
                // one way only: the pair can't see, or can't answer
                return None;
            }
            for p in ["unix-connect:", "unix-client:", "unix:", "local:", "gopen:"] {
                if l.starts_with(p.as_bytes()) {
                    found = Some(a[p.len()..].split(|b| *b == b',').next().unwrap().to_vec());
                }
            }
        }
    } else {
        found = c.args.last().cloned();
    }
    found
}

pub fn did(r: &Ran) -> Did {
    let mut d = Did::Nothing;
    for c in &r.cmds {
        match c.name.as_str() {
            "evil" => return Did::Bad(format!("text given to it was executed ({})", show_cmd(c))),
            "stty" | "clear" => (),
            "socat" | "nc" | "ncat" => {
                if d != Did::Nothing {
                    return Did::Bad(format!("more than one action: then {}", show_cmd(c)));
                }
                d = match socat_path(c) {
                    Some(p) => Did::Connect(p),
                    None => Did::Bad(format!("unrecognised {}", show_cmd(c))),
                }
            }
            "sudo" => {
                if d != Did::Nothing {
                    return Did::Bad(format!("more than one action: then {}", show_cmd(c)));
                }
                d = parse_sudo(c);
            }
            _ => return Did::Bad(format!("unexpected {}", show_cmd(c))),
        }
        if let Did::Bad(_) = d {
            return d;
        }
    }
    d
}

/// sudo's own command line, as far as the script may use it.
fn parse_sudo(c: &Cmd) -> Did {
    let mut user = None;
    let mut group = None;
    let mut i = 0;
    let a = &c.args;
    let bad = || Did::Bad(format!("unrecognised {}", show_cmd(c)));
    while i < a.len() {
        let x = &a[i];
        let arg = a.get(i + 1).cloned();
        if x == b"--" {
            i += 1;
            break;
        }
        if x == b"-u" || x == b"--user" {
            user = match arg { Some(v) => Some(v), None => return bad() };
            i += 2;
        } else if x == b"-g" || x == b"--group" {
            group = match arg { Some(v) => Some(v), None => return bad() };
            i += 2;
        } else if let Some(v) = x.strip_prefix(b"--user=".as_slice()) {
            user = Some(v.to_vec());
            i += 1;
        } else if let Some(v) = x.strip_prefix(b"--group=".as_slice()) {
            group = Some(v.to_vec());
            i += 1;
        } else if x.len() > 2 && x.starts_with(b"-u") {
            user = Some(x[2..].to_vec());
            i += 1;
        } else if x.len() > 2 && x.starts_with(b"-g") {
            group = Some(x[2..].to_vec());
            i += 1;
        } else if x == b"-n" || x == b"-H" || x == b"-S" {
            i += 1;
        } else if x.first() == Some(&b'-') {
            return bad();
        } else {
            break;
        }
    }
    Did::Sudo { user, group, argv: a[i..].to_vec() }
}

pub fn user_name(uid: u32) -> Option<&'static str> {
    [("root", 0u32), ("alice", 1000), ("mallory", 1001), ("bob", 2000), ("carol", 2100), ("a-b.c_d", 2200), ("nobody", 65534)].iter().find(|x| x.1 == uid).map(|x| x.0)
}
pub fn group_name(gid: u32) -> Option<&'static str> {
    [("root", 0u32), ("ops", 30), ("alice", 1000), ("mallory", 1001), ("bobs", 2000), ("carol", 2100), ("nogroup", 65534)].iter().find(|x| x.1 == gid).map(|x| x.0)
}

/// Does what sudo was given name this id?
pub fn names(given: &Option<Vec<u8>>, id: u32, name: Option<&str>) -> bool {
    match given {
        Some(g) => name.map_or(false, |n| n.as_bytes() == &g[..]) || format!("#{}", id).as_bytes() == &g[..],
        None => false,
    }
}
