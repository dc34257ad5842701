//! Replacements for the libc functions the plugin imports.

use crate::world::*;
use libc::*;
use std::ffi::CStr;

pub unsafe fn cstr(p: *const c_char) -> Vec<u8> {
    if p.is_null() { vec![] } else { CStr::from_ptr(p).to_bytes().to_vec() }
}

fn zpath(p: &[u8]) -> Vec<u8> {
    let mut v = p.to_vec();
    v.push(0);
    v
}

/// One intercepted call: scheduling point, possible fault, real call, log.
fn go(op: Op, real: impl FnOnce() -> i64) -> i64 {
    go2(op, |_| real())
}

fn go2(op: Op, real: impl FnOnce(Option<Fault>) -> i64) -> i64 {
    let wd = w();
    if !wd.active {
        return real(None);
    }
    match wd.enter(&op) {
        Some(Fault::Err(e)) => {
            wd.leave(&op, -1, e, true);
            set_errno(e);
            -1
        }
        f => {
            let r = real(f);
            let e = if r < 0 { errno() } else { 0 };
            wd.leave(&op, r, e, f.is_some());
            if r < 0 {
                set_errno(e);
            }
            r
        }
    }
}

fn path_op(name: &'static str, p: &[u8]) -> (Op, Vec<u8>) {
    let m = w().map_path(p);
    let cls = w().cls_of_path(&m);
    (Op::new(name, if p == b"/dev/log" { Cls::DevLog } else { cls }).path(&m), m)
}

fn deny() -> i64 {
    set_errno(EACCES);
    -1
}

/// A path operation that changes the filesystem: contained in scratch.
unsafe fn path_mut(name: &'static str, p: *const c_char, arg: u64, f: impl FnOnce(*const c_char) -> i64) -> c_int {
    let (op, m) = path_op(name, &cstr(p));
    go(op.arg(arg), || {
        if !w().contained(&m) {
            return deny();
        }
        f(zpath(&m).as_ptr() as *const c_char)
    }) as c_int
}

unsafe fn path_ro(name: &'static str, p: *const c_char, f: impl FnOnce(*const c_char) -> i64) -> c_int {
    let (op, m) = path_op(name, &cstr(p));
    go(op, || f(zpath(&m).as_ptr() as *const c_char)) as c_int
}

// ---------------------------------------------------------------- files

unsafe fn do_open(dirfd: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let (op, m) = path_op("open", &cstr(p));
    let cls = op.cls;
    let writes = flags & O_ACCMODE != O_RDONLY || flags & (O_CREAT | O_TRUNC) != 0;
    go(op.arg(flags as u64), || {
        if writes && !w().contained(&m) {
            return deny();
        }
        let r = openat(dirfd, zpath(&m).as_ptr() as *const c_char, flags, mode) as i64;
        if r >= 0 && w().active {
            w().fd_open(r as i32, cls, &m);
        }
        r
    }) as c_int
}

unsafe extern "C" fn w_open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(AT_FDCWD, p, flags, mode)
}
unsafe extern "C" fn w_creat(p: *const c_char, mode: c_uint) -> c_int {
    do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode)
}
unsafe extern "C" fn w_openat(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(d, p, flags, mode)
}

fn fd_nonblock(fd: c_int) -> bool {
    unsafe { fcntl(fd, F_GETFL) & O_NONBLOCK != 0 }
}

unsafe fn readable(fd: c_int) -> bool {
    let mut p = pollfd { fd, events: POLLIN, revents: 0 };
    poll(&mut p, 1, 0) > 0
}

/// Reads from the session connection the way a blocking socket would.
unsafe fn sess_read(fd: c_int, buf: *mut c_void, len: usize, flags: c_int) -> i64 {
    let restartable = !w().fds.get(&fd).map_or(false, |i| i.rcvtimeo);
    loop {
        if readable(fd) {
            return recv(fd, buf, len, flags | MSG_DONTWAIT) as i64;
        }
        if fd_nonblock(fd) || flags & MSG_DONTWAIT != 0 {
            set_errno(EAGAIN);
            return -1;
        }
        match w().wait_session(fd, restartable) {
            Wait::Ready => continue,
            Wait::Eintr => {
                set_errno(EINTR);
                return -1;
            }
            Wait::Timeout => {
                set_errno(EAGAIN);
                return -1;
            }
            Wait::Hang => {
                if !restartable {
                    set_errno(EAGAIN); // a receive timeout was set
                    return -1;
                }
                w().do_hang("read from pair");
                set_errno(EIO);
                return -1;
            }
        }
    }
}

unsafe fn do_read(name: &'static str, fd: c_int, buf: *mut c_void, len: usize, flags: c_int) -> isize {
    let cls = w().cls_of_fd(fd);
    go2(Op::new(name, cls).fd(fd).len(len), |f| {
        let len = match f {
            Some(Fault::Zero) => return 0,
            Some(Fault::Short(n)) => len.min(n),
            _ => len,
        };
        if cls == Cls::Session {
            sess_read(fd, buf, len, flags)
        } else if name == "read" {
            read(fd, buf, len) as i64
        } else {
            recv(fd, buf, len, flags) as i64
        }
    }) as isize
}

unsafe extern "C" fn w_read(fd: c_int, buf: *mut c_void, len: usize) -> isize {
    do_read("read", fd, buf, len, 0)
}
unsafe extern "C" fn w_recv(fd: c_int, buf: *mut c_void, len: usize, flags: c_int) -> isize {
    do_read("recv", fd, buf, len, flags)
}
unsafe extern "C" fn w_recvfrom(fd: c_int, buf: *mut c_void, len: usize, flags: c_int, a: *mut sockaddr, al: *mut socklen_t) -> isize {
    if !al.is_null() && !a.is_null() {
        *al = 0;
    }
    do_read("recv", fd, buf, len, flags)
}
unsafe fn do_readv(fd: c_int, iov: *const iovec, n: usize, flags: c_int) -> isize {
    let total: usize = (0..n).map(|i| (*iov.add(i)).iov_len).sum();
    let mut tmp = vec![0u8; total];
    let r = do_read("recv", fd, tmp.as_mut_ptr() as *mut c_void, total, flags);
    if r > 0 {
        let mut off = 0;
        for i in 0..n {
            let v = *iov.add(i);
            let k = v.iov_len.min(r as usize - off);
            std::ptr::copy_nonoverlapping(tmp.as_ptr().add(off), v.iov_base as *mut u8, k);
            off += k;
        }
    }
    r
}
unsafe extern "C" fn w_readv(fd: c_int, iov: *const iovec, n: c_int) -> isize {
    if w().cls_of_fd(fd) != Cls::Session {
        return go(Op::new("readv", w().cls_of_fd(fd)).fd(fd), || readv(fd, iov, n) as i64) as isize;
    }
    do_readv(fd, iov, n as usize, 0)
}
unsafe extern "C" fn w_recvmsg(fd: c_int, m: *mut msghdr, flags: c_int) -> isize {
    if w().cls_of_fd(fd) != Cls::Session {
        return go(Op::new("recvmsg", w().cls_of_fd(fd)).fd(fd), || recvmsg(fd, m, flags) as i64) as isize;
    }
    (*m).msg_controllen = 0;
    (*m).msg_flags = 0;
    do_readv(fd, (*m).msg_iov, (*m).msg_iovlen as usize, flags)
}

unsafe fn sess_write(fd: c_int, buf: &[u8], flags: c_int) -> i64 {
    let mut done = 0usize;
    loop {
        let r = send(fd, buf.as_ptr().add(done) as *const c_void, buf.len() - done, flags | MSG_DONTWAIT);
        if r >= 0 {
            done += r as usize;
            if done == buf.len() {
                return done as i64;
            }
            if fd_nonblock(fd) || flags & MSG_DONTWAIT != 0 {
                return done as i64;
            }
            if r > 0 {
                continue;
            }
        }
        let e = errno();
        if r < 0 && e != EAGAIN {
            if done > 0 {
                return done as i64;
            }
            set_errno(e);
            return -1;
        }
        if fd_nonblock(fd) || flags & MSG_DONTWAIT != 0 {
            if done > 0 {
                return done as i64;
            }
            set_errno(EAGAIN);
            return -1;
        }
        // the buffer is full: a slow peer outlasts a set timeout
        if w().slow && w().fds.get(&fd).map_or(false, |i| i.sndtimeo) {
            if done > 0 {
                return done as i64;
            }
            set_errno(EAGAIN);
            return -1;
        }
        match w().full.pop_front() {
            Some(Act::Sigint) => {
                let patient = !w().fds.get(&fd).map_or(false, |i| i.sndtimeo);
                let (ran, intr) = (SIGINT_RAN, w().deliver_sigint(patient));
                w().leave(&Op::new("sigint", Cls::Session), intr as i64, 0, false);
                if (intr || SIGINT_RAN != ran) && done > 0 {
                    return done as i64; // what was taken before counts
                }
                if intr {
                    set_errno(EINTR);
                    return -1;
                }
                continue;
            }
            Some(Act::Silent) => {
                w().full.push_front(Act::Silent);
                w().do_hang("write to pair");
                set_errno(EIO);
                return -1;
            }
            Some(Act::Close) => {
                if let Some(i) = w().peers.iter().rposition(|p| p.accepted == Some(fd)) {
                    w().peer_act(i, Act::Close, true);
                }
                continue;
            }
            _ => (),
        }
        // the peer reads, as a live pair would
        let idx = w().peers.iter().rposition(|p| p.accepted == Some(fd));
        let got = idx.map_or(0, |i| w().drain(i));
        if got == 0 {
            w().do_hang("write to pair");
            set_errno(EIO);
            return -1;
        }
    }
}

unsafe fn do_write(name: &'static str, fd: c_int, buf: &[u8], flags: c_int) -> isize {
    let cls = w().cls_of_fd(fd);
    if w().active && cls != Cls::Other {
        w().note(buf);
    }
    go2(Op::new(name, cls).fd(fd).len(buf.len()), |f| {
        let b = match f {
            Some(Fault::Zero) => return 0,
            Some(Fault::Short(n)) => &buf[..buf.len().min(n)],
            _ => buf,
        };
        match cls {
            Cls::Session => sess_write(fd, b, flags),
            Cls::Stderr => {
                w().stderr_bytes.extend_from_slice(b);
                b.len() as i64
            }
            Cls::Tty => {
                let r = write(fd, b.as_ptr() as *const c_void, b.len()) as i64;
                if r > 0 {
                    w().tty_bytes.extend_from_slice(&b[..r as usize]);
                }
                r
            }
            _ if name == "write" => {
                if fd <= 2 && w().active {
                    return b.len() as i64;
                }
                write(fd, b.as_ptr() as *const c_void, b.len()) as i64
            }
            _ => send(fd, b.as_ptr() as *const c_void, b.len(), flags | MSG_NOSIGNAL | MSG_DONTWAIT) as i64,
        }
    }) as isize
}

unsafe extern "C" fn w_write(fd: c_int, buf: *const c_void, len: usize) -> isize {
    do_write("write", fd, std::slice::from_raw_parts(buf as *const u8, len), 0)
}
unsafe extern "C" fn w_send(fd: c_int, buf: *const c_void, len: usize, flags: c_int) -> isize {
    do_write("send", fd, std::slice::from_raw_parts(buf as *const u8, len), flags)
}
unsafe extern "C" fn w_sendto(fd: c_int, buf: *const c_void, len: usize, flags: c_int, a: *const sockaddr, al: socklen_t) -> isize {
    if w().cls_of_fd(fd) == Cls::Session || a.is_null() {
        return do_write("send", fd, std::slice::from_raw_parts(buf as *const u8, len), flags);
    }
    go(Op::new("sendto", w().cls_of_fd(fd)).fd(fd).len(len), || sendto(fd, buf, len, flags | MSG_DONTWAIT, a, al) as i64) as isize
}
unsafe fn gather(iov: *const iovec, n: usize) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..n {
        let x = *iov.add(i);
        v.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
    }
    v
}
unsafe extern "C" fn w_writev(fd: c_int, iov: *const iovec, n: c_int) -> isize {
    do_write("write", fd, &gather(iov, n as usize), 0)
}
unsafe extern "C" fn w_sendmsg(fd: c_int, m: *const msghdr, flags: c_int) -> isize {
    if w().cls_of_fd(fd) == Cls::Session {
        return do_write("send", fd, &gather((*m).msg_iov, (*m).msg_iovlen as usize), flags);
    }
    go(Op::new("sendmsg", w().cls_of_fd(fd)).fd(fd), || sendmsg(fd, m, flags | MSG_DONTWAIT) as i64) as isize
}

unsafe extern "C" fn w_close(fd: c_int) -> c_int {
    let cls = w().cls_of_fd(fd);
    go2(Op::new("close", cls).fd(fd), |_| {
        w().fds.remove(&fd);
        close(fd) as i64
    }) as c_int
}
unsafe extern "C" fn w_dup(fd: c_int) -> c_int {
    let i = w().fds.get(&fd).cloned();
    go(Op::new("dup", w().cls_of_fd(fd)).fd(fd), || {
        let r = dup(fd) as i64;
        dup_track(i, fd, r);
        r
    }) as c_int
}
fn dup_track(i: Option<FdInfo>, fd: c_int, r: i64) {
    if r < 0 || !w().active {
        return;
    }
    if let Some(i) = i {
        w().fds.insert(r as i32, i);
    }
    for p in w().peers.iter_mut() {
        if p.accepted == Some(fd) {
            p.accepted = Some(r as i32);
        }
    }
}
unsafe extern "C" fn w_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let i = w().fds.get(&fd).cloned();
    go(Op::new("fcntl", w().cls_of_fd(fd)).fd(fd).arg(cmd as u64), || {
        let r = fcntl(fd, cmd, arg) as i64;
        if cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC {
            dup_track(i, fd, r);
        }
        r
    }) as c_int
}
unsafe extern "C" fn w_ioctl(fd: c_int, req: c_ulong, arg: usize) -> c_int {
    go(Op::new("ioctl", w().cls_of_fd(fd)).fd(fd).arg(req as u64), || ioctl(fd, req, arg) as i64) as c_int
}

// ------------------------------------------------------------ metadata

unsafe extern "C" fn w_stat(p: *const c_char, b: *mut stat) -> c_int {
    path_ro("stat", p, |q| stat(q, b) as i64)
}
unsafe extern "C" fn w_lstat(p: *const c_char, b: *mut stat) -> c_int {
    path_ro("lstat", p, |q| lstat(q, b) as i64)
}
unsafe extern "C" fn w_fstat(fd: c_int, b: *mut stat) -> c_int {
    go(Op::new("fstat", w().cls_of_fd(fd)).fd(fd), || fstat(fd, b) as i64) as c_int
}
unsafe extern "C" fn w_fstatat(d: c_int, p: *const c_char, b: *mut stat, f: c_int) -> c_int {
    path_ro(if f & AT_SYMLINK_NOFOLLOW != 0 { "lstat" } else { "stat" }, p, |q| fstatat(d, q, b, f) as i64)
}
unsafe extern "C" fn w_statx(d: c_int, p: *const c_char, f: c_int, m: c_uint, b: *mut statx) -> c_int {
    if p.is_null() || b.is_null() {
        return statx(d, p, f, m, b);
    }
    if *p == 0 {
        return go(Op::new("fstat", w().cls_of_fd(d)).fd(d), || statx(d, p, f, m, b) as i64) as c_int;
    }
    path_ro(if f & AT_SYMLINK_NOFOLLOW != 0 { "lstat" } else { "stat" }, p, |q| statx(d, q, f, m, b) as i64)
}
unsafe extern "C" fn w_access(p: *const c_char, m: c_int) -> c_int {
    path_ro("access", p, |q| access(q, m) as i64)
}
unsafe extern "C" fn w_faccessat(d: c_int, p: *const c_char, m: c_int, f: c_int) -> c_int {
    path_ro("access", p, |q| faccessat(d, q, m, f) as i64)
}
unsafe extern "C" fn w_unlink(p: *const c_char) -> c_int {
    path_mut("unlink", p, 0, |q| unlink(q) as i64)
}
unsafe extern "C" fn w_remove(p: *const c_char) -> c_int {
    path_mut("unlink", p, 0, |q| remove(q) as i64)
}
unsafe extern "C" fn w_unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int {
    path_mut("unlink", p, f as u64, |q| unlinkat(d, q, f) as i64)
}
unsafe extern "C" fn w_rmdir(p: *const c_char) -> c_int {
    path_mut("rmdir", p, 0, |q| rmdir(q) as i64)
}
unsafe extern "C" fn w_mkdir(p: *const c_char, m: mode_t) -> c_int {
    path_mut("mkdir", p, m as u64, |q| mkdir(q, m) as i64)
}
unsafe extern "C" fn w_rename(a: *const c_char, b: *const c_char) -> c_int {
    let mb = w().map_path(&cstr(b));
    path_mut("rename", a, 0, |q| if w().contained(&mb) { rename(q, zpath(&mb).as_ptr() as *const c_char) as i64 } else { deny() })
}
unsafe extern "C" fn w_renameat(_: c_int, a: *const c_char, _: c_int, b: *const c_char) -> c_int {
    w_rename(a, b)
}
unsafe extern "C" fn w_renameat2(_: c_int, a: *const c_char, _: c_int, b: *const c_char, _: c_uint) -> c_int {
    w_rename(a, b)
}
unsafe extern "C" fn w_link(a: *const c_char, b: *const c_char) -> c_int {
    let mb = w().map_path(&cstr(b));
    path_mut("link", a, 0, |q| if w().contained(&mb) { link(q, zpath(&mb).as_ptr() as *const c_char) as i64 } else { deny() })
}
unsafe extern "C" fn w_symlink(a: *const c_char, b: *const c_char) -> c_int {
    path_mut("symlink", b, 0, |q| symlink(a, q) as i64)
}
unsafe extern "C" fn w_chmod(p: *const c_char, m: mode_t) -> c_int {
    path_mut("chmod", p, m as u64, |q| chmod(q, m) as i64)
}
unsafe extern "C" fn w_fchmodat(d: c_int, p: *const c_char, m: mode_t, f: c_int) -> c_int {
    path_mut("chmod", p, m as u64, |q| fchmodat(d, q, m, f) as i64)
}
unsafe extern "C" fn w_fchmod(fd: c_int, m: mode_t) -> c_int {
    go(Op::new("fchmod", w().cls_of_fd(fd)).fd(fd).arg(m as u64), || fchmod(fd, m) as i64) as c_int
}
unsafe extern "C" fn w_chown(p: *const c_char, u: uid_t, g: gid_t) -> c_int {
    path_mut("chown", p, ((u as u64) << 32) | g as u64, |q| chown(q, u, g) as i64)
}
unsafe extern "C" fn w_lchown(p: *const c_char, u: uid_t, g: gid_t) -> c_int {
    path_mut("chown", p, ((u as u64) << 32) | g as u64, |q| lchown(q, u, g) as i64)
}
unsafe extern "C" fn w_fchownat(d: c_int, p: *const c_char, u: uid_t, g: gid_t, f: c_int) -> c_int {
    path_mut("chown", p, ((u as u64) << 32) | g as u64, |q| fchownat(d, q, u, g, f) as i64)
}
unsafe extern "C" fn w_fchown(fd: c_int, u: uid_t, g: gid_t) -> c_int {
    go(Op::new("fchown", w().cls_of_fd(fd)).fd(fd).arg(((u as u64) << 32) | g as u64), || fchown(fd, u, g) as i64) as c_int
}
unsafe extern "C" fn w_umask(m: mode_t) -> mode_t {
    go(Op::new("umask", Cls::None).arg(m as u64), || umask(m) as i64) as mode_t
}
unsafe extern "C" fn w_truncate(p: *const c_char, n: off_t) -> c_int {
    path_mut("truncate", p, n as u64, |q| truncate(q, n) as i64)
}

// ------------------------------------------------------------- sockets

unsafe fn sun_path(a: *const sockaddr, l: socklen_t) -> Option<Vec<u8>> {
    if a.is_null() || l < 2 || (*a).sa_family as i32 != AF_UNIX {
        return None;
    }
    let u = a as *const sockaddr_un;
    let n = l as usize - 2;
    let b = std::slice::from_raw_parts((*u).sun_path.as_ptr() as *const u8, n.min(108));
    let end = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    Some(b[..end].to_vec())
}

unsafe fn mk_sun(p: &[u8]) -> (sockaddr_un, socklen_t) {
    let mut u: sockaddr_un = std::mem::zeroed();
    u.sun_family = AF_UNIX as u16;
    for (i, c) in p.iter().take(107).enumerate() {
        u.sun_path[i] = *c as c_char;
    }
    (u, (3 + p.len().min(107)) as socklen_t)
}

unsafe extern "C" fn w_socket(d: c_int, t: c_int, p: c_int) -> c_int {
    let cls = if t & 0xf == SOCK_STREAM { Cls::Sock } else { Cls::Syslog };
    go(Op::new("socket", cls).arg(t as u64), || {
        let r = socket(d, t, p) as i64;
        if r >= 0 && w().active {
            w().fd_open(r as i32, cls, b"");
        }
        r
    }) as c_int
}
unsafe extern "C" fn w_socketpair(d: c_int, t: c_int, p: c_int, sv: *mut c_int) -> c_int {
    let r = socketpair(d, t, p, sv);
    if r == 0 && w().active {
        w().fd_open(*sv, Cls::Other, b"");
        w().fd_open(*sv.add(1), Cls::Other, b"");
    }
    r
}
unsafe extern "C" fn w_bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    let p = match sun_path(a, l) {
        Some(p) => p,
        None => return go(Op::new("bind", Cls::Other).fd(fd), || bind(fd, a, l) as i64) as c_int,
    };
    let (mut op, m) = path_op("bind", &p);
    if op.cls == Cls::Other {
        op.cls = Cls::Sock;
    }
    go(op.fd(fd), || {
        if !w().contained(&m) {
            return deny();
        }
        let (u, n) = mk_sun(&m);
        let r = bind(fd, &u as *const _ as *const sockaddr, n) as i64;
        if r == 0 && w().active {
            w().fd_open(fd, Cls::Listener, &m);
            w().bound.push(m.clone());
        }
        r
    }) as c_int
}
unsafe extern "C" fn w_listen(fd: c_int, n: c_int) -> c_int {
    let cls = w().cls_of_fd(fd);
    go(Op::new("listen", cls).fd(fd).arg(n as u32 as u64), || listen(fd, n) as i64) as c_int
}
unsafe extern "C" fn w_accept4(fd: c_int, a: *mut sockaddr, al: *mut socklen_t, f: c_int) -> c_int {
    let cls = w().cls_of_fd(fd);
    go(Op::new("accept", cls).fd(fd), || {
        while w().active && !readable(fd) && !fd_nonblock(fd) {
            match w().wait_listener(fd, true) {
                Wait::Ready => (),
                Wait::Eintr => {
                    set_errno(EINTR);
                    return -1;
                }
                _ => {
                    w().do_hang("accept");
                    set_errno(EBADF);
                    return -1;
                }
            }
        }
        let r = accept4(fd, a, al, f) as i64;
        if r >= 0 && w().active {
            let path = w().fds.get(&fd).map_or(vec![], |i| i.path.clone());
            w().fd_open(r as i32, Cls::Session, &path);
            w().accepted.push(r as i32);
            if let Some(k) = w().to_accept.iter().position(|x| x.0 == path) {
                let (_, i) = w().to_accept.remove(k);
                w().peers[i].accepted = Some(r as i32);
            }
        }
        r
    }) as c_int
}
unsafe extern "C" fn w_accept(fd: c_int, a: *mut sockaddr, al: *mut socklen_t) -> c_int {
    w_accept4(fd, a, al, 0)
}
unsafe extern "C" fn w_connect(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    let p = sun_path(a, l).unwrap_or_default();
    let (op, m) = path_op("connect", &p);
    go(op.fd(fd), || {
        if !w().active {
            return connect(fd, a, l) as i64;
        }
        if p == b"/dev/log" {
            if !w().syslog_ok {
                set_errno(ENOENT);
                return -1;
            }
            w().fd_open(fd, Cls::Syslog, &m);
            w().syslog_fd = fd;
        }
        if !w().contained(&m) {
            set_errno(ECONNREFUSED);
            return -1;
        }
        let (u, n) = mk_sun(&m);
        connect(fd, &u as *const _ as *const sockaddr, n) as i64
    }) as c_int
}
unsafe extern "C" fn w_shutdown(fd: c_int, h: c_int) -> c_int {
    go(Op::new("shutdown", w().cls_of_fd(fd)).fd(fd).arg(h as u64), || shutdown(fd, h) as i64) as c_int
}
unsafe extern "C" fn w_setsockopt(fd: c_int, lv: c_int, o: c_int, v: *const c_void, l: socklen_t) -> c_int {
    go(Op::new("setsockopt", w().cls_of_fd(fd)).fd(fd).arg(o as u64), || {
        if lv == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO) && l as usize >= 16 {
            let t = *(v as *const timeval);
            let set = t.tv_sec != 0 || t.tv_usec != 0;
            if let Some(i) = w().fds.get_mut(&fd) {
                if o == SO_RCVTIMEO {
                    i.rcvtimeo = set;
                } else {
                    i.sndtimeo = set;
                }
            }
        }
        setsockopt(fd, lv, o, v, l) as i64
    }) as c_int
}

// ------------------------------------------------------------- waiting

/// Waits until one of `fds` is ready for reading, as the environment
/// decides.  Never really blocks.
unsafe fn wait_many(fds: &[c_int], finite: bool) -> Wait {
    loop {
        if fds.iter().any(|f| readable(*f)) {
            return Wait::Ready;
        }
        let l = fds.iter().find(|f| w().cls_of_fd(**f) == Cls::Listener);
        let s = fds.iter().find(|f| w().cls_of_fd(**f) == Cls::Session);
        let r = if let Some(f) = s {
            w().wait_session(*f, false)
        } else if let Some(f) = l {
            w().wait_listener(*f, false)
        } else {
            Wait::Hang
        };
        match r {
            Wait::Ready => continue,
            Wait::Hang if finite => return Wait::Timeout,
            Wait::Hang => {
                w().do_hang("select");
                return Wait::Hang;
            }
            r => return r,
        }
    }
}

/// Waits until one of `fds` takes more: the peer of a full session reads at
/// last, unless he is slower than the caller is patient.
unsafe fn wait_writable(fds: &[c_int], finite: bool) {
    let free = |f: &c_int| {
        let mut p = pollfd { fd: *f, events: POLLOUT, revents: 0 };
        poll(&mut p, 1, 0) > 0
    };
    if fds.iter().any(free) || (finite && w().slow) {
        return;
    }
    for f in fds {
        if let Some(i) = w().peers.iter().rposition(|p| p.accepted == Some(*f)) {
            w().drain(i);
        }
    }
}

unsafe fn do_select(n: c_int, rd: *mut fd_set, wr: *mut fd_set, ex: *mut fd_set, finite: bool) -> i64 {
    let mut fds = vec![];
    if !rd.is_null() {
        for f in 0..n {
            if FD_ISSET(f, rd) {
                fds.push(f);
            }
        }
    }
    let mut zero = timeval { tv_sec: 0, tv_usec: 0 };
    if wr.is_null() || (0..n).all(|f| !FD_ISSET(f, wr)) {
        match wait_many(&fds, finite) {
            Wait::Ready => (),
            Wait::Timeout => {
                FD_ZERO(rd);
                return 0;
            }
            Wait::Eintr => {
                set_errno(EINTR);
                return -1;
            }
            Wait::Hang => {
                set_errno(EBADF);
                return -1;
            }
        }
    }
    if !wr.is_null() {
        let fds: Vec<c_int> = (0..n).filter(|f| FD_ISSET(*f, wr)).collect();
        wait_writable(&fds, finite);
    }
    select(n, rd, wr, ex, &mut zero) as i64
}

unsafe extern "C" fn w_select(n: c_int, rd: *mut fd_set, wr: *mut fd_set, ex: *mut fd_set, t: *mut timeval) -> c_int {
    if !w().active {
        return select(n, rd, wr, ex, t);
    }
    go(Op::new("select", Cls::Listener), || do_select(n, rd, wr, ex, !t.is_null())) as c_int
}
unsafe extern "C" fn w_pselect(n: c_int, rd: *mut fd_set, wr: *mut fd_set, ex: *mut fd_set, t: *const timespec, m: *const sigset_t) -> c_int {
    go(Op::new("select", Cls::Listener), || {
        let mut old: sigset_t = std::mem::zeroed();
        if !m.is_null() {
            sigprocmask(SIG_SETMASK, m, &mut old);
        }
        let r = do_select(n, rd, wr, ex, !t.is_null());
        let e = errno();
        if !m.is_null() {
            sigprocmask(SIG_SETMASK, &old, std::ptr::null_mut());
        }
        set_errno(e);
        r
    }) as c_int
}
unsafe fn do_poll(p: *mut pollfd, n: nfds_t, finite: bool) -> i64 {
    let v = std::slice::from_raw_parts(p, n as usize);
    let rd: Vec<c_int> = v.iter().filter(|x| x.fd >= 0 && x.events & POLLIN != 0).map(|x| x.fd).collect();
    if !v.iter().any(|x| x.events & POLLOUT != 0) {
        match wait_many(&rd, finite) {
            Wait::Ready => (),
            Wait::Timeout => return 0,
            Wait::Eintr => {
                set_errno(EINTR);
                return -1;
            }
            Wait::Hang => {
                set_errno(EBADF);
                return -1;
            }
        }
    }
    let wr: Vec<c_int> = v.iter().filter(|x| x.fd >= 0 && x.events & POLLOUT != 0).map(|x| x.fd).collect();
    wait_writable(&wr, finite);
    poll(p, n, 0) as i64
}
unsafe extern "C" fn w_poll(p: *mut pollfd, n: nfds_t, t: c_int) -> c_int {
    // (Rust's runtime polls the standard descriptors with timeout 0)
    if !w().active || t == 0 {
        return poll(p, n, t);
    }
    go(Op::new("select", Cls::Listener), || do_poll(p, n, t > 0)) as c_int
}
unsafe extern "C" fn w_ppoll(p: *mut pollfd, n: nfds_t, t: *const timespec, m: *const sigset_t) -> c_int {
    go(Op::new("select", Cls::Listener), || {
        let mut old: sigset_t = std::mem::zeroed();
        if !m.is_null() {
            sigprocmask(SIG_SETMASK, m, &mut old);
        }
        let r = do_poll(p, n, !t.is_null());
        let e = errno();
        if !m.is_null() {
            sigprocmask(SIG_SETMASK, &old, std::ptr::null_mut());
        }
        set_errno(e);
        r
    }) as c_int
}

// ------------------------------------------------------------- signals

unsafe extern "C" fn w_sigaction(s: c_int, n: *const sigaction, o: *mut sigaction) -> c_int {
    let arg = s as u64 | ((!n.is_null()) as u64) << 8 | ((!o.is_null()) as u64) << 9;
    go(Op::new("sigaction", Cls::Sig).arg(arg), || sigaction(s, n, o) as i64) as c_int
}
unsafe extern "C" fn w_signal(s: c_int, h: sighandler_t) -> sighandler_t {
    go(Op::new("signal", Cls::Sig).arg(s as u64), || signal(s, h) as i64) as sighandler_t
}
unsafe extern "C" fn w_sigprocmask(h: c_int, n: *const sigset_t, o: *mut sigset_t) -> c_int {
    go(Op::new("sigprocmask", Cls::Sig).arg(h as u64), || sigprocmask(h, n, o) as i64) as c_int
}

// ------------------------------------------------- identity, time, misc

unsafe extern "C" fn w_geteuid() -> uid_t {
    w().euid.unwrap_or_else(|| geteuid())
}
unsafe extern "C" fn w_getegid() -> gid_t {
    w().egid.unwrap_or_else(|| getegid())
}
unsafe extern "C" fn w_getrandom(b: *mut c_void, n: usize, _: c_uint) -> isize {
    for i in 0..n {
        *(b as *mut u8).add(i) = (i as u8).wrapping_mul(37).wrapping_add(11);
    }
    n as isize
}
unsafe extern "C" fn w_syscall(no: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if no == SYS_getrandom {
        return w_getrandom(a as *mut c_void, b, 0) as c_long;
    }
    syscall(no, a, b, c, d, e, f)
}
unsafe extern "C" fn w_nanosleep(_: *const timespec, _: *mut timespec) -> c_int {
    go(Op::new("sleep", Cls::None), || 0) as c_int
}
unsafe extern "C" fn w_clock_nanosleep(_: c_int, _: c_int, _: *const timespec, _: *mut timespec) -> c_int {
    go(Op::new("sleep", Cls::None), || 0) as c_int
}
unsafe extern "C" fn w_usleep(_: c_uint) -> c_int {
    go(Op::new("sleep", Cls::None), || 0) as c_int
}
unsafe extern "C" fn w_exit(_: c_int) -> ! {
    _exit(EXIT_EXITED)
}
unsafe extern "C" fn w_forbidden() -> c_int {
    w().escapes.push("process creation".into());
    set_errno(EPERM);
    -1
}
unsafe extern "C" fn w_kill(p: pid_t, s: c_int) -> c_int {
    if p == getpid() && s == SIGINT {
        return raise(s);
    }
    w_forbidden()
}
unsafe extern "C" fn w_dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void {
    let s = CStr::from_ptr(n).to_string_lossy();
    match wrapper(&s) {
        Some(p) => p as *mut c_void,
        None => dlsym(h, n),
    }
}

// -------------------------------------------------------------- printf

/// Can `n` bytes at `p` be read?
unsafe fn peek(p: usize, n: usize) -> Option<Vec<u8>> {
    let mut v = vec![0u8; n];
    let l = iovec { iov_base: v.as_mut_ptr() as *mut c_void, iov_len: n };
    let r = iovec { iov_base: p as *mut c_void, iov_len: n };
    if process_vm_readv(getpid(), &l, 1, &r, 1, 0) == n as isize { Some(v) } else { None }
}

unsafe fn peek_str(mut p: usize, max: usize) -> Option<Vec<u8>> {
    let mut out = vec![];
    if p == 0 {
        return None;
    }
    while out.len() < max {
        let n = (4096 - (p & 4095)).min(max - out.len());
        let b = peek(p, n)?;
        if let Some(z) = b.iter().position(|c| *c == 0) {
            out.extend_from_slice(&b[..z]);
            return Some(out);
        }
        out.extend_from_slice(&b);
        p += n;
    }
    Some(out)
}

/// What C's printf would show for `fmt`; `bad` when a directive cannot be
/// satisfied by well-defined arguments.
unsafe fn render(fmt: &[u8], args: &[usize]) -> (Vec<u8>, bool) {
    let (mut out, mut bad, mut ai, mut i) = (vec![], false, 0, 0);
    let mut next = |bad: &mut bool| {
        let r = args.get(ai).copied();
        ai += 1;
        r.unwrap_or_else(|| {
            *bad = true;
            0
        })
    };
    while i < fmt.len() {
        if fmt[i] != b'%' {
            out.push(fmt[i]);
            i += 1;
            continue;
        }
        i += 1;
        let mut prec: Option<usize> = None;
        let mut long = false;
        while i < fmt.len() && b"-+ #0123456789".contains(&fmt[i]) {
            bad = true; // padding: nothing here should need it
            i += 1;
        }
        if i < fmt.len() && fmt[i] == b'.' {
            i += 1;
            if i < fmt.len() && fmt[i] == b'*' {
                prec = Some(next(&mut bad) as u32 as usize);
                i += 1;
            } else {
                let mut v = 0usize;
                while i < fmt.len() && fmt[i].is_ascii_digit() {
                    v = v.saturating_mul(10).saturating_add((fmt[i] - b'0') as usize);
                    i += 1;
                }
                prec = Some(v);
            }
        }
        while i < fmt.len() && b"lzjt".contains(&fmt[i]) {
            long = true;
            i += 1;
        }
        if i >= fmt.len() {
            bad = true;
            break;
        }
        let c = fmt[i];
        i += 1;
        match c {
            b'%' => out.push(b'%'),
            b's' => {
                let p = next(&mut bad);
                match peek_str(p, prec.unwrap_or(1 << 24)) {
                    Some(v) => out.extend(v),
                    None => {
                        bad = true;
                        out.extend_from_slice(b"<WILD POINTER>");
                    }
                }
            }
            b'c' => out.push(next(&mut bad) as u8),
            b'd' | b'i' => {
                let v = next(&mut bad);
                out.extend((if long { v as i64 } else { v as i32 as i64 }).to_string().bytes());
            }
            b'u' => {
                let v = next(&mut bad);
                out.extend((if long { v as u64 } else { v as u32 as u64 }).to_string().bytes());
            }
            b'x' => {
                let v = next(&mut bad);
                out.extend(format!("{:x}", if long { v as u64 } else { v as u32 as u64 }).bytes());
            }
            _ => {
                bad = true;
                out.extend_from_slice(b"<BAD DIRECTIVE>");
            }
        }
    }
    (out, bad)
}

/// sudo's printf.  Variadic in C; on this ABI the integer and pointer
/// arguments of a variadic call arrive exactly like fixed ones.
pub unsafe extern "C" fn sudo_printf(ty: c_int, fmt: *const c_char, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_int {
    let wd = w();
    let fmt = cstr(fmt);
    let (mut text, bad) = render(&fmt, &[a, b, c, d, e, f]);
    let k = wd.printf_calls;
    wd.printf_calls += 1;
    if wd.printf_calls > 20_000 {
        _exit(EXIT_NONTERM);
    }
    let mut fail = wd.printf_fail_at.contains(&k) || wd.printf_fail_at.contains(&usize::MAX);
    let mut short = false;
    let was = wd.active;
    if was && wd.printf_menu {
        wd.active = false;
        let k = wd.ch.dev(if wd.printf_short && !text.is_empty() { 3 } else { 2 });
        fail |= k == 1;
        short = k == 2;
        wd.active = was;
    }
    if short {
        text.truncate(text.len() / 2);
    }
    let op = Op::new("printf", Cls::None).arg(ty as u64).len(text.len());
    wd.note(&text);
    if fail {
        wd.leave(&op, -1, EIO, true);
        set_errno(EIO);
        return -1;
    }
    wd.leave(&op, text.len() as i64, 0, false);
    let n = text.len();
    wd.printed.push(Printed { ty, text, fmt, bad });
    n as c_int
}

pub unsafe extern "C" fn sudo_conv(_: c_int, _: *const c_void, _: *mut c_void, _: *mut c_void) -> c_int {
    -1
}

macro_rules! table {
    ($($n:literal => $f:expr),* $(,)?) => {
        pub fn wrapper(name: &str) -> Option<usize> {
            Some(match name { $($n => $f as *const () as usize,)* _ => return None })
        }
    };
}

table! {
    "open" => w_open, "open64" => w_open, "creat" => w_creat, "creat64" => w_creat,
    "openat" => w_openat, "openat64" => w_openat,
    "read" => w_read, "recv" => w_recv, "recvfrom" => w_recvfrom, "readv" => w_readv, "recvmsg" => w_recvmsg,
    "write" => w_write, "send" => w_send, "sendto" => w_sendto, "writev" => w_writev, "sendmsg" => w_sendmsg,
    "close" => w_close, "dup" => w_dup, "fcntl" => w_fcntl, "fcntl64" => w_fcntl, "ioctl" => w_ioctl,
    "stat" => w_stat, "stat64" => w_stat, "lstat" => w_lstat, "lstat64" => w_lstat,
    "fstat" => w_fstat, "fstat64" => w_fstat, "fstatat" => w_fstatat, "fstatat64" => w_fstatat, "statx" => w_statx,
    "access" => w_access, "eaccess" => w_access, "euidaccess" => w_access, "faccessat" => w_faccessat,
    "unlink" => w_unlink, "remove" => w_remove, "unlinkat" => w_unlinkat, "rmdir" => w_rmdir, "mkdir" => w_mkdir,
    "rename" => w_rename, "renameat" => w_renameat, "renameat2" => w_renameat2, "link" => w_link, "symlink" => w_symlink,
    "chmod" => w_chmod, "fchmodat" => w_fchmodat, "fchmod" => w_fchmod,
    "chown" => w_chown, "lchown" => w_lchown, "fchownat" => w_fchownat, "fchown" => w_fchown,
    "umask" => w_umask, "truncate" => w_truncate, "truncate64" => w_truncate,
    "socket" => w_socket, "socketpair" => w_socketpair, "bind" => w_bind, "listen" => w_listen,
    "accept" => w_accept, "accept4" => w_accept4, "connect" => w_connect, "shutdown" => w_shutdown,
    "setsockopt" => w_setsockopt,
    "select" => w_select, "pselect" => w_pselect, "poll" => w_poll, "ppoll" => w_ppoll,
    "sigaction" => w_sigaction, "signal" => w_signal, "bsd_signal" => w_signal,
    "sigprocmask" => w_sigprocmask, "pthread_sigmask" => w_sigprocmask,
    "geteuid" => w_geteuid, "getegid" => w_getegid,
    "getrandom" => w_getrandom, "syscall" => w_syscall,
    "nanosleep" => w_nanosleep, "clock_nanosleep" => w_clock_nanosleep, "usleep" => w_usleep, "sleep" => w_usleep,
    "exit" => w_exit, "_exit" => w_exit, "_Exit" => w_exit, "quick_exit" => w_exit,
    "fork" => w_forbidden, "vfork" => w_forbidden, "execve" => w_forbidden, "execv" => w_forbidden,
    "execvp" => w_forbidden, "execl" => w_forbidden, "execlp" => w_forbidden, "posix_spawn" => w_forbidden,
    "posix_spawnp" => w_forbidden, "system" => w_forbidden, "popen" => w_forbidden,
    "mount" => w_forbidden, "umount" => w_forbidden, "umount2" => w_forbidden, "chroot" => w_forbidden,
    "kill" => w_kill, "killpg" => w_kill, "dlsym" => w_dlsym,
}

/// Imports that could let the plugin act on, or learn from, the world
/// without passing through a wrapper.
pub const UNMODELLED: &[&str] = &[
    "epoll_create1", "epoll_wait", "epoll_ctl", "eventfd", "timerfd_create", "signalfd", "splice", "sendfile",
    "sendfile64", "copy_file_range", "pthread_create", "dup2", "dup3", "pipe", "pipe2", "mknod", "mknodat", "mkfifo",
    "fopen", "fopen64", "setuid", "seteuid", "setreuid", "setresuid", "setgid", "setegid", "setgroups", "linkat", "symlinkat",
    "getuid", "getgid", "setsid", "alarm", "setitimer", "time", "gettimeofday", "preadv", "pwritev", "pread64", "pwrite64",
];
