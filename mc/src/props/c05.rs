//! C05: insecure places for the socket, and foreign objects at its path.

use super::c04::bind_raw;
use super::util::*;
use std::collections::BTreeMap;

pub fn spec() -> Spec {
    Spec { id: "C05", needs: "p", harnesses, assumptions: &[ENV, ONE, "nobody but sudo's user changes the directory while it is in use (its permissions are what this property checks)"] }
}

fn harnesses(t: bool) -> Vec<Harness> {
    vec![
        Harness { name: "modes", what: "all 4096 modes of the directory, by owner and effective user", bound: 0, run: modes, expect: &["accepted", "refused"] },
        Harness { name: "places", what: "every kind of thing where the directory should be", bound: 0, run: places, expect: &["accepted", "refused"] },
        Harness { name: "constants", what: "every text and number the code under test is written with as the place, its owner, its group, sudo's user and the session's own facts", bound: 0, run: constants, expect: &["accepted", "refused"] },
        Harness { name: "objects", what: "every kind of thing at the socket's path, with faults up to the bound", bound: if t { 2 } else { 1 }, run: objects, expect: &["accepted", "refused"] },
    ]
}

type Snap = BTreeMap<String, String>;

fn walk(p: &std::path::Path, out: &mut Snap) {
    use std::os::unix::fs::{FileTypeExt, MetadataExt};
    let m = match std::fs::symlink_metadata(p) {
        Ok(m) => m,
        Err(_) => return,
    };
    let t = m.file_type();
    let mut d = format!("mode {:o} uid {} gid {} ino {} size {}", m.mode(), m.uid(), m.gid(), m.ino(), if t.is_dir() { 0 } else { m.size() });
    if t.is_symlink() {
        d += &format!(" -> {:?}", std::fs::read_link(p).unwrap());
    }
    if t.is_file() {
        d += &format!(" {:?}", std::fs::read(p).unwrap());
    }
    if t.is_socket() {
        d += " socket";
    }
    out.insert(p.to_string_lossy().into_owned(), d);
    if t.is_dir() {
        if let Ok(r) = std::fs::read_dir(p) {
            for e in r.flatten() {
                walk(&e.path(), out);
            }
        }
    }
}

/// Everything in this worker's scratch directory.
fn snap() -> Snap {
    let mut o = Snap::new();
    walk(std::path::Path::new(&w().scratch), &mut o);
    o
}

fn diff(a: &Snap, b: &Snap) -> Vec<String> {
    let mut v = vec![];
    for (k, x) in a {
        match b.get(k) {
            None => v.push(format!("{} is gone", k)),
            Some(y) if x != y => v.push(format!("{} changed from {} to {}", k, x, y)),
            _ => {}
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            v.push(format!("{} is new", k));
        }
    }
    v
}

fn opened_at_path() -> Result<(), String> {
    let bad = w().evs.iter().find(|e| e.op.name == "open" && e.op.cls == Cls::Sock || e.op.name == "truncate");
    match bad {
        Some(e) => Err(format!("{} on the socket's path", e.op.name)),
        None => Ok(()),
    }
}

fn start() -> (SessIn, String) {
    set_tpl(false, None);
    set_tpl(true, None);
    dir_dirty();
    (SessIn::usual(), String::from_utf8(w().dir.clone()).unwrap())
}

fn z(p: &str) -> std::ffi::CString {
    std::ffi::CString::new(p).unwrap()
}
fn chmod(p: &str, m: u32) {
    unsafe { assert_eq!(libc::chmod(z(p).as_ptr(), m), 0) }
}
fn chown(p: &str, u: u32, g: u32) {
    unsafe { assert_eq!(libc::chown(z(p).as_ptr(), u, g), 0) }
}
fn mksock(p: &str) -> i32 {
    unsafe {
        let fd = libc::socket(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        assert_eq!(bind_raw(fd, p.as_bytes()), 0);
        fd
    }
}

fn judge(cx: &mut Cx, r: i32, ok: bool, before: &Snap) -> Result<(), String> {
    opened_at_path()?;
    let d = diff(before, &snap());
    if ok {
        cx.outcome("accepted");
        hung()?;
        check(r == 1, || format!("a proper place was refused: open returned {}", r))?;
    } else {
        cx.outcome("refused");
        check(!proceeds(r), || format!("an insecure place was accepted: open returned {}", r))?;
        check(w().bound.is_empty() && w().waited == 0, || "a socket was bound in an insecure place".into())?;
    }
    check(d.is_empty(), || d.join("; "))
}

fn modes(cx: &mut Cx) -> Result<(), String> {
    let (si, dir) = start();
    let m = cx.input(4096) as u32;
    let owner = *cx.pick(&[0u32, 1000]);
    let eu = if cx.thorough { *cx.pick(&[None, Some(1000u32), Some(2000)]) } else { *cx.pick(&[None, Some(1000u32)]) };
    let grp = if cx.thorough { *cx.pick(&[0u32, 1000]) } else { 0 };
    // perhaps there is a leftover of our name
    let ok_owner = owner == eu.unwrap_or(0);
    let left = if cx.thorough || !ok_owner || m & 0o022 != 0 { cx.input(3) } else { 0 };
    let p = format!("{}/1000.4242.sock", dir);
    match left {
        1 => unsafe {
            libc::close(mksock(&p));
        },
        2 => {
            unsafe { libc::close(mksock(&format!("{}/side", w().scratch))) };
            std::os::unix::fs::symlink(format!("{}/side", w().scratch), &p).unwrap();
        }
        _ => (),
    }
    chown(&dir, owner, grp);
    chmod(&dir, m);
    w().euid = eu;
    let ok = owner == eu.unwrap_or(0) && m & 0o022 == 0;
    answer(b"y");
    cx.describe(|| format!("mode {:o} owner {} sudo's user {:?} leftover {}", m, owner, eu, left));
    let before = snap();
    let r = open(&si);
    let res = if ok && left > 0 {
        // (what becomes of it is looked at elsewhere)
        check(r == 1, || format!("a proper place was refused: open returned {}", r))
    } else {
        judge(cx, r, ok, &before)
    };
    let _ = std::fs::remove_file(format!("{}/side", w().scratch));
    res
}

fn constants(cx: &mut Cx) -> Result<(), String> {
    let (mut si, base) = start();
    let texts: Vec<&Vec<u8>> = crate::dict::texts().iter().filter(|t| std::str::from_utf8(t).is_ok()).collect();
    let ids: Vec<u32> = crate::dict::near(u32::MAX as u64 - 1).iter().map(|n| *n as u32).collect();
    let mode = *cx.pick(&[0o777u32, 0o775, 0o757, 0o1777, 0o755]);
    let which = cx.input(9);
    let (mut owner, mut grp, mut dir) = (0, 0, base.clone());
    let mut note = String::new();
    match which {
        0 | 1 => {
            let t = *cx.pick(&texts);
            note = s(t);
            let t = match std::str::from_utf8(t) {
                Ok(t) if !t.contains('\0') && !t.contains("..") => t,
                _ => return Ok(()),
            };
            dir = format!("{}/{}{}", base, t.trim_matches('/'), if which == 1 { "/d" } else { "" });
            // (the path of a socket is limited)
            if dir == base || dir == format!("{}/", base) || dir.len() > 85 {
                return Ok(());
            }
            std::fs::create_dir_all(&dir).unwrap();
        }
        2 => owner = *cx.pick(&ids),
        3 => grp = *cx.pick(&ids),
        4 => {
            // somebody else's, and named in the session
            owner = *cx.pick(&ids);
            si.command_info.set("runas_uid", owner.to_string()).set("runas_euid", owner.to_string());
        }
        5 => {
            owner = *cx.pick(&ids);
            w().euid = Some(owner);
        }
        6 => {
            owner = 1000;
            let u = *cx.pick(&ids);
            w().euid = Some(if u == owner { u + 1 } else { u });
        }
        7 => {
            let t = *cx.pick(&texts);
            note = s(t);
            si.user_info.set("user", t).set("host", t);
        }
        _ => {
            let t = *cx.pick(&texts);
            note = s(t);
            // (what is approved with needs no approval)
            si.options.set("binary_path", "/scratch/nowhere/approve");
            si.command_info.set("command", t);
        }
    }
    chown(&dir, owner, grp);
    chmod(&dir, mode);
    si.options.set("socket_dir", dir.as_bytes());
    w().dir = dir.clone().into_bytes();
    let ok = owner == w().euid.unwrap_or(0) && mode & 0o022 == 0;
    answer(b"y");
    cx.describe(|| format!("place {} mode {:o} owner {} group {} sudo's user {:?} {}", dir, mode, owner, grp, w().euid, note));
    let before = snap();
    let r = open(&si);
    judge(cx, r, ok, &before)
}

fn places(cx: &mut Cx) -> Result<(), String> {
    let (mut si, base) = start();
    let kind = cx.input(15);
    let mode = *cx.pick(&[0o755u32, 0o700, 0o777, 0o775, 0o711, 0o1777, 0o2755]);
    let owner = *cx.pick(&[0u32, 1000]);
    let slash = cx.flag();
    let d = format!("{}/place", base);
    let mk = |p: &str, mode: u32, owner: u32| {
        std::fs::create_dir(p).unwrap();
        chown(p, owner, 0);
        chmod(p, mode);
    };
    let sec = owner == 0 && mode & 0o022 == 0;
    let mut path = d.clone();
    let mut keep = -1;
    let ok = match kind {
        0 => {
            mk(&d, mode, owner);
            sec
        }
        1 => false, // missing
        2 => {
            std::fs::write(&d, b"file").unwrap();
            chown(&d, owner, 0);
            chmod(&d, mode);
            false
        }
        3 => {
            mk(&format!("{}/real", base), mode, owner);
            std::os::unix::fs::symlink(format!("{}/real", base), &d).unwrap();
            sec
        }
        4 => {
            std::os::unix::fs::symlink(format!("{}/nowhere", base), &d).unwrap();
            false
        }
        5 => {
            keep = mksock(&d);
            chown(&d, owner, 0);
            chmod(&d, mode);
            false
        }
        6 => {
            unsafe { libc::mkfifo(z(&d).as_ptr(), 0o600) };
            chown(&d, owner, 0);
            chmod(&d, mode);
            false
        }
        7 => {
            std::fs::write(format!("{}/f", base), b"file").unwrap();
            std::os::unix::fs::symlink(format!("{}/f", base), &d).unwrap();
            false
        }
        8 => {
            // the parent is missing
            path = format!("{}/no/such", base);
            false
        }
        9 => {
            // below a file
            std::fs::write(&d, b"file").unwrap();
            path = format!("{}/sub", d);
            false
        }
        10 => {
            // the link is owned by another, the directory is not
            mk(&format!("{}/real", base), mode, owner);
            std::os::unix::fs::symlink(format!("{}/real", base), &d).unwrap();
            unsafe { libc::lchown(z(&d).as_ptr(), 1000, 1000) };
            sec
        }
        11 => {
            // a secure directory inside an insecure one: only its own
            // permissions are checked, as documented
            mk(&d, 0o755, 0);
            mk(&format!("{}/in", d), mode, owner);
            path = format!("{}/in", d);
            sec
        }
        12 => {
            std::os::unix::fs::symlink(&d, &d).unwrap(); // loop
            false
        }
        13 => {
            // other things already in it
            mk(&d, mode, owner);
            std::fs::write(format!("{}/1000.4243.sock", d), b"x").unwrap();
            std::fs::write(format!("{}/other", d), b"y").unwrap();
            sec
        }
        _ => {
            // a look-alike of the name is a socket of someone else
            mk(&d, mode, owner);
            keep = mksock(&format!("{}/1000.424.sock", d));
            sec
        }
    };
    w().dir = path.clone().into_bytes();
    let opt = if slash { format!("{}/", path) } else { path.clone() };
    si.options.set("socket_dir", opt.as_bytes());
    answer(b"y");
    cx.describe(|| format!("place {} mode {:o} owner {} slash {}", kind, mode, owner, slash));
    let before = snap();
    let r = open(&si);
    if keep >= 0 {
        unsafe { libc::close(keep) };
    }
    if kind == 5 || kind == 6 || kind == 2 || kind == 7 || kind == 9 {
        // whatever refuses it (the check itself or the bind), nothing may change
        cx.outcome("refused");
        opened_at_path()?;
        check(!proceeds(r), || format!("accepted: open returned {}", r))?;
        check(w().bound.is_empty() && w().waited == 0, || "a socket was bound".into())?;
        let df = diff(&before, &snap());
        return check(df.is_empty(), || df.join("; "));
    }
    judge(cx, r, ok, &before)
}

fn objects(cx: &mut Cx) -> Result<(), String> {
    let (mut si, base) = start();
    let p = format!("{}/1000.4242.sock", base);
    let side = format!("{}/side", base);
    let kind = cx.input(16);
    let owner = *cx.pick(&[0u32, 1000]);
    let mode = *cx.pick(&[0o600u32, 0, 0o777, 0o200]);
    let mut keep = vec![];
    // (session may go on, the thing at the path goes away)
    let (ok, goes) = match kind {
        0 => (true, false),
        1 => {
            unsafe { libc::close(mksock(&p)) };
            (true, true)
        }
        2 => {
            std::fs::write(&p, b"precious").unwrap();
            (false, false)
        }
        3 => {
            std::fs::create_dir(&p).unwrap();
            (false, false)
        }
        4 => {
            std::fs::create_dir(&p).unwrap();
            std::fs::write(format!("{}/inner", p), b"precious").unwrap();
            (false, false)
        }
        5 => {
            unsafe { libc::mkfifo(z(&p).as_ptr(), 0o600) };
            (false, false)
        }
        6 => {
            unsafe { libc::close(mksock(&side)) };
            std::os::unix::fs::symlink(&side, &p).unwrap();
            (true, true)
        }
        7 => {
            std::fs::write(&side, b"precious").unwrap();
            std::os::unix::fs::symlink(&side, &p).unwrap();
            (false, false)
        }
        8 => {
            std::fs::create_dir(&side).unwrap();
            std::os::unix::fs::symlink(&side, &p).unwrap();
            (false, false)
        }
        9 => {
            std::os::unix::fs::symlink(&side, &p).unwrap(); // dangling
            (false, false)
        }
        10 => {
            std::os::unix::fs::symlink(&p, &p).unwrap(); // loop
            (false, false)
        }
        11 => {
            // still listened on
            let fd = mksock(&p);
            unsafe { libc::listen(fd, 5) };
            keep.push(fd);
            (true, true)
        }
        12 => {
            std::fs::write(&p, b"").unwrap();
            (false, false)
        }
        13 => {
            std::fs::write(&side, b"precious").unwrap();
            std::fs::hard_link(&side, &p).unwrap();
            (false, false)
        }
        14 => {
            unsafe { libc::close(mksock(&side)) };
            std::fs::hard_link(&side, &p).unwrap();
            (true, true)
        }
        _ => {
            // a chain of links to a socket
            unsafe { libc::close(mksock(&side)) };
            std::os::unix::fs::symlink(&side, format!("{}/mid", base)).unwrap();
            std::os::unix::fs::symlink(format!("{}/mid", base), &p).unwrap();
            (true, true)
        }
    };
    if kind != 0 && !matches!(kind, 6 | 7 | 8 | 9 | 10 | 15) {
        chown(&p, owner, 0);
        chmod(&p, mode);
    }
    if cx.flag() {
        si.command_info.set("runas_uid", "1000").set("runas_gid", "0");
        si.settings.set("runas_group", "root");
    }
    let ans = *cx.pick(&[b"y", b"n"]);
    answer(ans);
    let before = snap();
    w().menu = Some(menu_protocol);
    let r = open(&si);
    w().menu = None;
    for f in keep {
        unsafe { libc::close(f) };
    }
    cx.describe(|| format!("object {} owner {} mode {:o} answer {} faults [{}]", kind, owner, mode, s(ans), show_faults()));
    opened_at_path()?;
    let mut after = snap();
    let faulty = !w().faults_taken.is_empty();
    if w().faults_taken.iter().any(|(o, _)| o.cls == Cls::Sock && (is_stat(o) || o.name == "unlink")) && ok {
        // the clean-up itself failed: our own socket may remain
        after.remove(&p);
        let mut b = before.clone();
        b.remove(&p);
        // links to or of the leftover keep its other name
        let d: Vec<String> = diff(&b, &after).into_iter().filter(|x| !x.starts_with(&side)).collect();
        cx.outcome("clean-up failed");
        return check(d.is_empty(), || d.join("; "));
    }
    let mut d = diff(&before, &after);
    if ok {
        if !faulty {
            cx.outcome("accepted");
            hung()?;
            check(proceeds(r) == (ans == b"y"), || format!("open returned {}", r))?;
            check(w().bound.len() == 1, || "no socket was bound".into())?;
        }
        if goes {
            let gone = format!("{} is gone", p);
            let had = d.iter().any(|x| *x == gone);
            if !faulty {
                check(had, || "the leftover is still there".into())?;
            }
            d.retain(|x| *x != gone);
        }
    } else {
        cx.outcome("refused");
        check(!proceeds(r), || format!("open returned {}", r))?;
        check(w().waited == 0 && w().bound.is_empty(), || "something foreign lies at the path, yet a socket was bound".into())?;
    }
    check(d.is_empty(), || d.join("; "))
}
