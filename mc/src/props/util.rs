//! Things several properties need.
#![allow(dead_code)]

pub use crate::explore::{Cx, Harness};
pub use crate::sess::*;
pub use crate::world::*;
pub use super::{Spec, ENV, ONE};
pub use std::collections::BTreeSet;

pub const UTPL: &[u8] = b"user prompt %u %p\n";
pub const PTPL: &[u8] = b"pair prompt for %U: %C [%u.%p]\n";

pub fn usual_pair_prompt() -> Vec<u8> {
    b"pair prompt for user: sudo cat /etc/motd [1000.4242]\n".to_vec()
}
pub fn usual_user_prompt() -> Vec<u8> {
    b"user prompt 1000 4242\n".to_vec()
}

/// Both templates present, as configured.
pub fn usual_templates() {
    set_tpl(false, Some(UTPL));
    set_tpl(true, Some(PTPL));
}

/// One peer, root, who answers `b` when the plugin waits for it.
pub fn answer(b: &[u8]) {
    w().plan.conns.push_back(Conn::says(b));
}

/// Would sudo run the command (or go on) after this return code of open?
/// 1 is yes; 0 disables the plugin, and the session goes on without it.
pub fn proceeds(r: i32) -> bool {
    r >= 0
}

pub fn check(ok: bool, f: impl FnOnce() -> String) -> Result<(), String> {
    if ok { Ok(()) } else { Err(f()) }
}

/// Nothing of the pairing protocol happened.
pub fn untouched() -> Result<(), String> {
    let wd = w();
    check(wd.bound.is_empty(), || format!("a socket was bound: {}", s(&wd.bound[0])))?;
    check(wd.waited == 0, || "waited for a pair".into())?;
    check(wd.printed.is_empty(), || format!("printed {:?}", s(&wd.printed[0].text)))?;
    check(wd.tty_bytes.is_empty(), || format!("wrote to the terminal: {:?}", s(&wd.tty_bytes)))?;
    check(wd.accepted.is_empty(), || "accepted a connection".into())?;
    Ok(())
}

/// A socket was created at some time.
pub fn socket_made() -> bool {
    !w().bound.is_empty()
}

/// Nobody was asked and no socket made (the user may have been told why).
pub fn no_socket() -> Result<(), String> {
    let wd = w();
    check(wd.bound.is_empty(), || format!("a socket was bound: {}", s(&wd.bound[0])))?;
    check(wd.waited == 0 && wd.accepted.is_empty(), || "waited for a pair".into())
}

pub fn hung() -> Result<(), String> {
    match &w().hang {
        Some(h) => Err(format!("waits forever: {}", h)),
        None => Ok(()),
    }
}

/// Bytes sent to the peer so far.
pub fn to_peer(i: usize) -> Vec<u8> {
    w().drain_all();
    w().peers.get(i).map_or(vec![], |p| p.recvd.clone())
}

pub fn is_write(op: &Op) -> bool {
    matches!(op.name, "write" | "send")
}
pub fn is_read(op: &Op) -> bool {
    matches!(op.name, "read" | "recv")
}
pub fn is_stat(op: &Op) -> bool {
    matches!(op.name, "stat" | "lstat")
}

/// A call without which the pair cannot be asked or heard: if it fails the
/// session has to be refused.
pub fn needed(op: &Op, f: &Fault) -> bool {
    match op.name {
        "socket" => op.cls == Cls::Sock,
        "bind" | "listen" => op.cls != Cls::Other,
        "chown" | "fchown" | "chmod" | "fchmod" => true,
        "select" => true,
        "accept" => *f != Fault::Err(libc::EINTR),
        "write" | "send" => op.cls == Cls::Session && !matches!(f, Fault::Err(libc::EINTR) | Fault::Short(_)),
        "read" | "recv" => op.cls == Cls::Session,
        "stat" | "lstat" => op.cls == Cls::Dir,
        _ => false,
    }
}

fn errs(v: &mut Vec<Fault>, e: &[i32]) {
    v.extend(e.iter().map(|e| Fault::Err(*e)));
}

/// Failures of the calls that make up the pairing protocol.
pub fn menu_protocol(w: &World, op: &Op, v: &mut Vec<Fault>) {
    use libc::*;
    match (op.name, op.cls) {
        ("stat" | "lstat", Cls::Dir) => errs(v, &[EACCES, ENOENT]),
        ("stat" | "lstat", Cls::Sock) => errs(v, &[EACCES]),
        ("unlink", Cls::Sock) => errs(v, &[EACCES]),
        ("socket", Cls::Sock) => errs(v, &[EMFILE]),
        ("bind", c) if c != Cls::Other => errs(v, &[EADDRINUSE]),
        ("listen", _) => errs(v, &[EADDRINUSE]),
        ("chown" | "fchown" | "chmod" | "fchmod", _) => errs(v, &[EPERM]),
        ("select", _) => errs(v, &[EINTR, ENOMEM]),
        ("accept", _) => errs(v, &[EMFILE, ECONNABORTED, EINTR]),
        ("write" | "send", Cls::Session) => {
            errs(v, &[EPIPE, EINTR]);
            if op.len > 1 {
                v.push(Fault::Short(1));
            }
        }
        ("read" | "recv", Cls::Session) => {
            errs(v, &[EINTR, ECONNRESET]);
            v.push(Fault::Zero);
        }
        ("sigaction", _) => errs(v, &[EINVAL]),
        ("shutdown", Cls::Session) => errs(v, &[ENOTCONN]),
        _ => menu_courtesy(w, op, v),
    }
}

/// Failures of the calls the decision must not depend on.
pub fn menu_courtesy(w: &World, op: &Op, v: &mut Vec<Fault>) {
    use libc::*;
    match (op.name, op.cls) {
        ("open", Cls::UserTpl | Cls::PairTpl) => errs(v, &[EACCES, EMFILE]),
        ("read", Cls::UserTpl | Cls::PairTpl) => {
            if w.evs.iter().rev().take_while(|e| e.op.cls == op.cls).map(|e| e.n).sum::<usize>() <= w.tpl_fault_limit {
                errs(v, &[EIO])
            }
        }
        ("open", Cls::Tty) => errs(v, &[ENXIO]),
        ("write", Cls::Tty) => {
            errs(v, &[EIO]);
            if op.len > 1 {
                v.push(Fault::Short(1));
            }
        }
        ("connect", Cls::DevLog) => errs(v, &[ECONNREFUSED]),
        ("send" | "sendto" | "write", Cls::Syslog) => errs(v, &[ENOBUFS]),
        _ => {}
    }
}

pub fn show_faults() -> String {
    w().faults_taken.iter().map(|(o, f)| format!("{}({:?})={:?}", o.name, o.cls, f)).collect::<Vec<_>>().join("+")
}

/// Byte strings of length 0..=n over an alphabet, chosen by the explorer.
pub fn word(cx: &mut Cx, alpha: &[&[u8]], n: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..n {
        let k = cx.input(alpha.len() + 1);
        if k == 0 {
            break;
        }
        v.extend_from_slice(alpha[k - 1]);
    }
    v
}

/// The ways to be exempt, applied to a usual session.
pub const EXEMPTIONS: usize = 6;
pub fn make_exempt(k: usize, si: &mut SessIn) -> &'static str {
    match k {
        0 => {
            si.user_info.set("uid", "0").set("euid", "0");
            "root"
        }
        1 => {
            si.command_info.set("runas_uid", "1000").set("runas_gid", "1000");
            "self"
        }
        2 => {
            si.command_info.set("command", "/usr/bin/sudo_approve");
            "approval command"
        }
        3 => {
            for k in ["iolog_ttyout", "iolog_stdout", "iolog_stderr"] {
                si.command_info.set(k, "false");
            }
            "no output logging"
        }
        4 => {
            si.options.set("gids_exempted", "20");
            "exempted group"
        }
        _ => {
            si.options.set("gids_enforced", "99");
            "unenforced"
        }
    }
}

/// Opens a session that its pair approves; what the pair has seen so far.
pub fn pair_up(si: &SessIn) -> Result<Vec<u8>, String> {
    answer(b"y");
    let r = open(si);
    check(r == 1 && w().peers.len() == 1, || format!("the pair said yes but open returned {}", r))?;
    Ok(to_peer(0))
}

pub const HINTS: [&str; 5] = ["iolog_ttyin", "iolog_ttyout", "iolog_stdin", "iolog_stdout", "iolog_stderr"];

/// Bit i of `bits` is hint i.
pub fn set_hints(si: &mut SessIn, bits: usize) {
    for (i, k) in HINTS.iter().enumerate() {
        si.command_info.set(k, if bits >> i & 1 == 1 { "true" } else { "false" });
    }
}

/// Does this combination make a session need its pair?
pub fn out_hint(bits: usize) -> bool {
    bits & 0b11010 != 0
}

pub fn pattern(n: usize, salt: usize) -> Vec<u8> {
    (0..n).map(|i| ((i * 7 + i / 251 + salt * 31) & 0xff) as u8).collect()
}

/// Failures of writes to the pair during a session.
pub fn menu_session(_: &World, op: &Op, v: &mut Vec<Fault>) {
    use libc::*;
    if op.cls == Cls::Session && is_write(op) {
        errs(v, &[EPIPE, EINTR, ECONNRESET, EAGAIN]);
        if op.len > 1 {
            v.push(Fault::Short(1));
        }
        if op.len > 2 {
            v.push(Fault::Short(op.len - 1));
        }
        v.push(Fault::Zero);
    }
    if op.name == "sigaction" {
        errs(v, &[EINVAL]);
    }
}

/// Only the harmless ones among the taken faults?
pub fn only_splits() -> bool {
    w().faults_taken.iter().all(|(_, f)| matches!(f, Fault::Short(_)))
}

/// A datagram socket where the logger expects /dev/log.
pub fn with_syslog() -> i32 {
    let wd = w();
    let p = format!("{}/devlog", wd.scratch);
    let _ = std::fs::remove_file(&p);
    wd.remap.push((b"/dev/log".to_vec(), p.clone().into_bytes()));
    wd.syslog_ok = true;
    unsafe {
        let fd = libc::socket(libc::AF_UNIX, libc::SOCK_DGRAM | libc::SOCK_CLOEXEC, 0);
        let hi = libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, 220);
        libc::close(fd);
        super::c04::bind_raw(hi, p.as_bytes());
        hi
    }
}

/// The defaults the documentation gives for absent templates.
pub const DEF_USER: &[u8] = b"%B %u %p\n";
pub const DEF_PAIR: &[u8] = b"%U@%h:%d$ %C\ny/n? [n]: ";

/// README's template language, written once more.
pub fn expand(t: &[u8], val: &dyn Fn(u8) -> Option<Vec<u8>>) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i] != b'%' {
            out.push(t[i]);
            i += 1;
        } else if i + 1 < t.len() {
            match val(t[i + 1]) {
                Some(v) => out.extend(v),
                None => out.push(t[i + 1]),
            }
            i += 2;
        } else {
            i += 1;
        }
    }
    out
}

/// The value of a directive in a session.
pub fn directive(si: &SessIn, flags: &[u8], c: u8) -> Option<Vec<u8>> {
    let get = |kv: &Kv, k: &str| -> Option<Vec<u8>> {
        let mut p = k.as_bytes().to_vec();
        p.push(b'=');
        kv.0.iter().rev().find(|e| e.starts_with(&p)).map(|e| e[p.len()..].to_vec())
    };
    let ui = |k: &str| get(&si.user_info, k);
    let bin = get(&si.options, "binary_path").unwrap_or(b"/usr/bin/sudo_approve".to_vec());
    Some(match c {
        b'b' => bin.rsplit(|c| *c == b'/').next().unwrap().to_vec(),
        b'B' => bin,
        b'C' => {
            let mut v = get(&si.settings, "progname").unwrap();
            v.extend(flags);
            for a in &si.argv {
                v.push(b' ');
                v.extend(a);
            }
            v
        }
        b'd' => get(&si.command_info, "cwd").or(ui("cwd")).unwrap(),
        b'h' => ui("host").unwrap(),
        b'H' => ui("lines").unwrap_or(b"24".to_vec()),
        b'W' => ui("cols").unwrap_or(b"80".to_vec()),
        b'g' => ui("gid").unwrap(),
        b'p' => ui("pid").unwrap(),
        b'u' => ui("uid").unwrap(),
        b'U' => ui("user").unwrap(),
        _ => return None,
    })
}

/// The limits that tell a call that never ends apply to one call, not to the
/// many of a long history.
pub fn fresh_limits() {
    w().steps = 0;
    w().printf_calls = 0;
}

/// From here on every failing call fails with this one error, whichever it
/// may be.  (EINTR and EAGAIN mean "again", so that the menus have them where
/// they belong.)
pub fn each_errno(cx: &mut Cx) {
    let mut e = 1 + cx.input(131) as i32;
    if e >= libc::EINTR {
        e += 1;
    }
    if e >= libc::EAGAIN {
        e += 1;
    }
    w().errno = e;
}

/// Texts a program might be tempted to treat specially.
pub const ODD: [&[u8]; 44] = [
    b"\r\n", b"\n\r", b"\r\r\n", b"\n\n", b"\t", b" \n", b"\x1bc", b"\x1b[2J", b"\x1b[H\x1b[2J", b"\x1b[3J", b"\x1b[?1049h", b"\x1b[?25l",
    b"\x1b[6n", b"\x1b[c", b"\x1b[8;1;1t", b"\x1b]0;title\x07", b"\x1b]52;c;aGk=\x07", b"\x1bP1$r0m\x1b\\", b"\x1b[200~", b"\x1b[0m", b"\x1b", b"\x1b\x1b",
    b"\x9b2J", b"\x00", b"\x00\x00", b"a\x00b", b"\x03", b"\x04", b"\x07", b"\x08", b"\x08 \x08", b"\x11", b"\x13", b"\x1a", b"\x7f", b"\xff", b"\xff\xfe",
    b"\xef\xbb\xbf", b"\xc3", b"\xc3\xa9", b"\xed\xa0\x80", b"\xf0\x9f\x98\x80", b"\xe2\x80\xae", b"#!/bin/sh",
];

/// Other files that a mistaken session might fall back to: templates at the
/// places used by default, and the controlling terminal.
pub fn decoys() {
    let wd = w();
    for (at, name, text) in [("/etc/sudo_pair.prompt.user", "decoy.u", "DECOY %u\n"), ("/etc/sudo_pair.prompt.pair", "decoy.p", "DECOY %u? "), ("/dev/tty", "decoy.tty", "")] {
        let p = format!("{}/{}", wd.scratch, name);
        std::fs::write(&p, text).unwrap();
        wd.remap.push((at.as_bytes().to_vec(), p.into_bytes()));
    }
}

/// Nothing was written to the terminal nobody named.
pub fn decoy_untouched() -> Result<(), String> {
    let t = std::fs::read(format!("{}/decoy.tty", w().scratch)).unwrap_or_default();
    check(t.is_empty(), || format!("the controlling terminal was shown {:?}", s(&t)))
}
