//! C04: who can reach the approval socket, at every instant.

use super::util::*;

pub fn spec() -> Spec {
    Spec { id: "C04", needs: "p", harnesses, assumptions: &[ENV, ONE, "an instant is a boundary between two system calls of the plugin; access is what the kernel's permission check grants", "the invoking user does not already hold the target group"] }
}

fn harnesses(t: bool) -> Vec<Harness> {
    vec![
        Harness { name: "instants", what: "at every system-call boundary, with every umask, effective group and fault up to the bound, each candidate's access", bound: if t { 2 } else { 1 }, run: instants, expect: &["user change", "group change", "refused at once"] },
        Harness { name: "connect", what: "each candidate really tries to connect while sudo waits", bound: 0, run: connect, expect: &["entitled", "kept out"] },
        Harness { name: "constants", what: "every number and text the code under test is written with as the ids, the pid and the names of the two users: access while sudo waits, and the name", bound: 0, run: constants, expect: &["user change", "group change"] },
        Harness { name: "name", what: "directory, uid and pid of every shape", bound: 0, run: name, expect: &["named"] },
    ]
}

struct Want {
    path: Vec<u8>,
    user: Option<u32>,
    group: Option<u32>,
    bad: Option<String>,
    seen: u32,
    ids: Ids,
}
static mut WANT: Want = Want { path: vec![], user: None, group: None, bad: None, seen: 0, ids: IDS };

/// Who invokes and who is the target.
#[derive(Clone, Copy)]
struct Ids {
    uid: u32,
    user: u32,
    group: u32,
}
const IDS: Ids = Ids { uid: 1000, user: 2000, group: 30 };

#[allow(static_mut_refs)]
fn want() -> &'static mut Want {
    unsafe { &mut WANT }
}

fn candidates() -> Vec<(&'static str, Cred)> {
    let g = |uid, gid, groups: &[u32]| Cred { uid, gid, groups: groups.to_vec() };
    let i = want().ids;
    vec![
        ("the invoking user", g(i.uid, 1000, &[1000, 20])),
        ("the target user", g(i.user, 2000, &[2000])),
        ("a member of the target group", g(3000, 3000, &[i.group])),
        ("someone whose primary group is the target group", g(3005, i.group, &[])),
        ("a member of the invoking user's group", g(3001, 1000, &[])),
        ("a member of the target user's group", g(3002, 2000, &[2000])),
        ("a member of root's group", g(3003, 0, &[0])),
        ("a stranger", g(4000, 4000, &[])),
    ]
}

fn entitled(c: &Cred) -> bool {
    let wa = want();
    c.uid == 0 || wa.user == Some(c.uid) || wa.group.map_or(false, |g| c.gid == g || c.groups.contains(&g))
}

/// The kernel's rule for write access to an inode.
fn may_write(c: &Cred, m: &libc::stat) -> bool {
    if c.uid == 0 {
        true
    } else if c.uid == m.st_uid {
        m.st_mode & 0o200 != 0
    } else if c.gid == m.st_gid || c.groups.contains(&m.st_gid) {
        m.st_mode & 0o020 != 0
    } else {
        m.st_mode & 0o002 != 0
    }
}

fn look(wd: &mut World, op: &Op) {
    let wa = want();
    if wa.bad.is_some() || matches!(op.cls, Cls::UserTpl | Cls::PairTpl | Cls::Syslog) && wa.seen > 0 {
        return;
    }
    for n in list_dir(&wd.dir.clone()) {
        let mut p = wd.dir.clone();
        p.push(b'/');
        p.extend(&n);
        if p != wa.path {
            wa.bad = Some(format!("before {}: {} exists, not the documented {}", op.name, s(&p), s(&wa.path)));
            return;
        }
        let mut z = p.clone();
        z.push(0);
        let mut m: libc::stat = unsafe { std::mem::zeroed() };
        if unsafe { libc::lstat(z.as_ptr() as *const _, &mut m) } != 0 {
            continue;
        }
        wa.seen += 1;
        let owner = Cred::new(m.st_uid, u32::MAX - 1);
        if !entitled(&owner) {
            wa.bad = Some(format!("before {}: the socket belongs to {}, who may permit himself to connect", op.name, m.st_uid));
            return;
        }
        let waiting = matches!(op.name, "select" | "poll" | "accept") && op.cls == Cls::Listener;
        for (who, c) in candidates() {
            if waiting && entitled(&c) && !may_write(&c, &m) {
                wa.bad = Some(format!("waiting in {}: {} may not connect (owner {}, group {}, mode {:o})", op.name, who, m.st_uid, m.st_gid, m.st_mode & 0o7777));
                return;
            }
            if may_write(&c, &m) && !entitled(&c) {
                wa.bad = Some(format!("before {}: {} may connect (owner {}, group {}, mode {:o})", op.name, who, m.st_uid, m.st_gid, m.st_mode & 0o7777));
                return;
            }
        }
    }
}

/// 0: user changes, 1: only the group by -g, 2: only the group without -g,
/// 3: both without -g (the target user's own group)
fn kind(cx: &mut Cx, si: &mut SessIn) -> usize {
    let k = cx.input(5);
    let wa = want();
    let i = wa.ids;
    *wa = Want { path: si.sock_path(&i.uid.to_string(), "4242"), user: None, group: None, bad: None, seen: 0, ids: i };
    let viae = cx.flag();
    let mut ids = |u: &str, g: &str| {
        if viae {
            si.command_info.set("runas_uid", "500").set("runas_gid", "500").set("runas_euid", u).set("runas_egid", g);
        } else {
            si.command_info.set("runas_uid", u).set("runas_gid", g);
        }
    };
    let (own, user, group) = (i.uid.to_string(), i.user.to_string(), i.group.to_string());
    match k {
        0 => {
            ids(&user, "2000");
            wa.user = Some(i.user);
        }
        1 => {
            ids(&own, &group);
            si.settings.set("runas_group", "grp");
            wa.group = Some(i.group);
        }
        2 => ids(&own, &group),
        3 => {
            ids("0", "0");
            wa.user = Some(0);
        }
        _ => {
            ids(&user, "1000");
            wa.user = Some(i.user);
        }
    }
    // one of the target's groups is enforced, whichever it is
    si.options.set("gids_enforced", format!("0,{},2000,1000", group));
    k
}

struct Egid(bool);
impl Egid {
    fn set(g: u32) -> Egid {
        if g != 0 {
            unsafe { libc::syscall(libc::SYS_setresgid, -1i32, g, -1i32) };
        }
        Egid(g != 0)
    }
}
impl Drop for Egid {
    fn drop(&mut self) {
        if self.0 {
            unsafe { libc::syscall(libc::SYS_setresgid, -1i32, 0, -1i32) };
        }
    }
}

fn instants(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    want().ids = IDS;
    let mut si = SessIn::usual();
    let k = kind(cx, &mut si);
    let um = *cx.pick(&[0o022u32, 0, 0o002, 0o077, 0o777]);
    // sudo is set-uid, not set-gid: its effective group is the user's
    let eg = *cx.pick(&[1000u32, 0]);
    let pre = cx.input(3);
    let ans = cx.input(3);
    unsafe { libc::umask(um) };
    if pre == 1 {
        // a leftover of the same name
        let fd = unsafe { libc::socket(libc::AF_UNIX, libc::SOCK_STREAM, 0) };
        bind_raw(fd, &want().path);
        unsafe {
            libc::close(fd);
            let mut z = want().path.clone();
            z.push(0);
            libc::chmod(z.as_ptr() as *const _, 0);
        }
    }
    if pre == 2 {
        w().plan.conns.push_back(Conn { cred: Cred::new(1000, 1000), early: vec![], on_wait: vec![Act::Send(b"y".to_vec())] });
    }
    match ans {
        0 => answer(b"y"),
        1 => answer(b"n"),
        _ => w().plan.pre.push_back(Act::Sigint),
    }
    w().menu = Some(menu_protocol);
    w().hook = Some(look);
    let g = Egid::set(eg);
    let r = open(&si);
    drop(g);
    let wd = w();
    wd.menu = None;
    look(wd, &Op::new("the end of open", Cls::None));
    cx.describe(|| format!("kind {} umask {:o} egid {} pre {} ans {} faults [{}]", k, um, eg, pre, ans, show_faults()));
    if let Some(b) = &want().bad {
        return Err(b.clone());
    }
    if proceeds(r) {
        // the session goes on: look at the later life, too
        log(Stream::TtyOut, b"x");
        close();
        wd.hook = None;
        if let Some(b) = &want().bad {
            return Err(b.clone());
        }
    }
    wd.hook = None;
    check(wd.bound.iter().all(|b| *b == want().path), || format!("bound {}, not {}", s(&wd.bound[0]), s(&want().path)))?;
    if k == 2 {
        cx.outcome("refused at once");
        check(!proceeds(r), || format!("whose approval to ask is unknown, but open returned {}", r))?;
        return no_socket();
    }
    cx.outcome(if k == 1 { "group change" } else { "user change" });
    if wd.faults_taken.is_empty() {
        check(want().seen > 0, || "no socket was ever there".into())?;
    }
    Ok(())
}

pub fn bind_raw(fd: i32, p: &[u8]) -> i32 {
    unsafe {
        let mut a: libc::sockaddr_un = std::mem::zeroed();
        a.sun_family = libc::AF_UNIX as u16;
        for (i, b) in p.iter().take(107).enumerate() {
            a.sun_path[i] = *b as i8;
        }
        libc::bind(fd, &a as *const _ as *const libc::sockaddr, 3 + p.len().min(107) as u32)
    }
}

fn connect(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    want().ids = IDS;
    let mut si = SessIn::usual();
    let k = kind(cx, &mut si);
    if k == 2 {
        return Ok(());
    }
    let mut cs = candidates();
    cs.push(("root", Cred::root()));
    let (who, c) = cx.pick(&cs).clone();
    let um = *cx.pick(&[0o022u32, 0, 0o777]);
    let eg = *cx.pick(&[1000u32, 0]);
    unsafe { libc::umask(um) };
    w().plan.conns.push_back(Conn { cred: c.clone(), early: vec![], on_wait: vec![Act::Send(b"y".to_vec())] });
    cx.describe(|| format!("kind {}: {} connects, umask {:o} egid {}", k, who, um, eg));
    let g = Egid::set(eg);
    let r = open(&si);
    drop(g);
    if entitled(&c) {
        cx.outcome("entitled");
        hung()?;
        check(r == 1, || format!("{} answered yes but open returned {}", who, r))
    } else {
        cx.outcome("kept out");
        check(w().peers.is_empty(), || format!("{} could connect", who))?;
        check(!proceeds(r), || format!("let through by {}", who))
    }
}

fn constants(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    // not the ids of the bystanders, nor root's: they would be entitled
    let ok = |n: &&u64| **n != 0 && **n < u32::MAX as u64 - 1 && ![30, 1000, 2000, 3000, 3001, 3002, 3003, 3005, 4000].contains(*n);
    let near = crate::dict::near(u32::MAX as u64);
    let ids: Vec<u32> = [65534u64, 99, 100, 999, 1001, 2147483648].iter().chain(near.iter()).filter(ok).map(|n| *n as u32).collect();
    let texts: Vec<&Vec<u8>> = crate::dict::texts().iter().filter(|t| std::str::from_utf8(t).is_ok()).collect();
    let which = cx.input(9);
    want().ids = IDS;
    let mut si = SessIn::usual();
    let i = &mut want().ids;
    let mut note = String::new();
    match which {
        0 => i.uid = *cx.pick(&ids),
        1 => i.user = *cx.pick(&ids),
        2 => i.group = *cx.pick(&ids),
        3 => {
            // a pid is a positive int
            note = (*cx.pick(&ids) & 0x7fff_ffff).max(1).to_string();
            si.user_info.set("pid", &note[..]);
        }
        4 => {
            note = cx.pick(&ids).to_string();
            si.user_info.set("gid", &note[..]).set("egid", &note[..]);
        }
        5 | 6 => {
            let t = *cx.pick(&texts);
            note = s(t);
            si.user_info.set("user", t);
            if which == 6 {
                si.settings.set("runas_user", t);
            }
        }
        7 => {
            let t = *cx.pick(&texts);
            note = s(t);
            si.user_info.set("host", t);
        }
        _ => {
            let t = *cx.pick(&texts);
            note = s(t);
            si.command_info.set("command", t);
            // nothing is exempt as the approval program
            si.options.set("binary_path", "/scratch/nowhere/approve");
        }
    }
    if i.uid == i.user {
        return Ok(());
    }
    let i = *i;
    si.user_info.set("uid", i.uid.to_string());
    let k = kind(cx, &mut si);
    if k == 2 {
        return Ok(());
    }
    if which == 3 {
        want().path = si.sock_path(&i.uid.to_string(), &note);
    }
    answer(b"y");
    w().hook = Some(look);
    let g = Egid::set(1000);
    let r = open(&si);
    drop(g);
    let wd = w();
    wd.hook = None;
    cx.describe(|| format!("input {} uid {} target {} {} {} kind {}", which, i.uid, i.user, i.group, note, k));
    if let Some(b) = &want().bad {
        return Err(b.clone());
    }
    cx.outcome(if k == 1 { "group change" } else { "user change" });
    check(r == 1, || format!("open returned {}", r))?;
    check(wd.bound == vec![want().path.clone()], || format!("bound {:?}, not {}", wd.bound.iter().map(|b| s(b)).collect::<Vec<_>>(), s(&want().path)))?;
    check(want().seen > 0, || "no socket was ever there".into())
}

fn name(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let mut si = SessIn::usual();
    let u = *cx.pick(&["1000", "1", "4294967294", "65534", "2147483648"]);
    let pid = *cx.pick(&["4242", "1", "2147483647", "100", "99999"]);
    let dir = cx.input(4);
    dir_dirty();
    let base = String::from_utf8(w().dir.clone()).unwrap();
    let d = match dir {
        0 => base.clone(),
        1 => format!("{}/a b%s", base),
        2 => format!("{}/x.sock", base),
        _ => format!("{}/d\u{e9}", base),
    };
    let _ = std::fs::create_dir_all(&d);
    w().dir = d.clone().into_bytes();
    si.options.set("socket_dir", d.as_bytes());
    si.user_info.set("uid", u).set("pid", pid);
    let gonly = cx.flag();
    if gonly {
        si.command_info.set("runas_uid", u);
        si.settings.set("runas_group", "root");
    }
    // other numbers that must not find their way into the name
    si.user_info.set("euid", "0").set("ppid", "77").set("pgid", "78").set("sid", "79").set("gid", "1001");
    answer(b"y");
    let r = open(&si);
    cx.describe(|| format!("uid {} pid {} dir {}", u, pid, d));
    cx.outcome("named");
    let want = format!("{}/{}.{}.sock", d, u, pid).into_bytes();
    check(r == 1, || format!("open returned {}", r))?;
    check(w().bound == vec![want.clone()], || format!("bound {:?}, not {}", w().bound.iter().map(|b| s(b)).collect::<Vec<_>>(), s(&want)))
}
