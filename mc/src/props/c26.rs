//! C26: plugin, socket and approval script against one lone user.

use super::util::*;
use crate::script::{self, names, Call, Did};
use std::collections::HashMap;

pub fn spec() -> Spec {
    Spec {
        id: "C26",
        needs: "ps",
        harnesses,
        assumptions: &[
            ENV,
            ONE,
            "the user does not himself hold the target group and is in no exempted group; the groups of everyone he may become are enforced",
            "sudoers lets everybody run anything as anybody; sudo sets SUDO_UID to whoever runs it and of his variables passes on DISPLAY alone; whoever gains the identity of somebody else (by running a program of his own under it) can connect under it",
            "he acts between two system calls of the plugin at which the socket, its listeners or its connections have changed",
        ],
    }
}

fn harnesses(t: bool) -> Vec<Harness> {
    let mut v = vec![
        Harness { name: "alone", what: "every sequence of steps of the invoking user up to the bound, at every instant", bound: 2, run: alone, expect: &["no step", "steps"] },
        Harness { name: "faults", what: "one step of his, together with one failing system call of the plugin", bound: 2, run: faults, expect: &["no step", "steps"] },
        Harness { name: "together", what: "each entitled or willing other user runs the script", bound: 0, run: together, expect: &["approved", "declined"] },
    ];
    if t {
        v.push(Harness { name: "longer", what: "longer sequences of the simpler steps", bound: 3, run: longer, expect: &["no step", "steps"] });
    }
    v
}

const ALICE: u32 = 1000;
const BIN: &[u8] = b"/usr/bin/sudo_approve";

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Step {
    /// connects and says yes
    Connect,
    Sigint,
    /// runs the script (SUDO_UID, arguments)
    Script(Option<&'static str>, [&'static [u8]; 2]),
    /// runs a command through sudo
    Sudo(Option<&'static str>, Option<&'static str>, &'static [u8], [&'static [u8]; 2]),
    /// the same, asking to keep his groups
    Keep(Option<&'static str>, Option<&'static str>, &'static [u8], [&'static [u8]; 2]),
}

const SELF: [&[u8]; 2] = [b"1000", b"4242"];

fn steps(thorough: bool) -> Vec<Step> {
    let mut v = vec![Step::Connect, Step::Sigint];
    for su in [None, Some("2100"), Some("0"), Some("")] {
        v.push(Step::Script(su, SELF));
    }
    let who: [(Option<&'static str>, Option<&'static str>); 5] = [(Some("bob"), None), (Some("root"), None), (Some("carol"), None), (None, Some("ops")), (Some("bob"), Some("ops"))];
    for (u, g) in who {
        v.push(Step::Sudo(u, g, BIN, SELF));
    }
    let hostile: &[[&'static [u8]; 2]] = &[
        [b"EUID[$(evil)]", b"4242"],
        [b"1000", b"EUID[$(evil)]"],
        [b"18446744073709552616", b"4242"],
        [b"01000", b"4242"],
        [b"0x3e8", b"4242"],
        [b"+1000", b"4242"],
        [b"2100/../1000", b"4242"],
        [b"2100", b"4242/../1000.4242"],
        [b"1000 ", b"4242"],
        [b"uid", b"4242"],
        [b"DISPLAY", b"4242"],
        [b"2100", b"DISPLAY"],
        [b"EUID", b"4242"],
        [b"$(evil)", b"4242"],
        [b"1000;evil", b"4242"],
        [b"-u", b"4242"],
        [b"999+1", b"4242"],
    ];
    for h in hostile {
        v.push(Step::Sudo(Some("bob"), None, BIN, *h));
        v.push(Step::Script(Some("2100"), *h));
        if thorough {
            v.push(Step::Sudo(None, Some("ops"), BIN, *h));
            v.push(Step::Sudo(Some("root"), None, BIN, *h));
        }
    }
    let cmds: &[&'static [u8]] = &[b"/bin/sh", b"/tmp/sudo_approve", b"sudo_approve", b"./sudo_approve", b"/usr/bin/sudo_approve2", b"/usr/bin/sudo_approv", b"/usr/bin/sudo_approve/sh", b"/usr/local/usr/bin/sudo_approve", b"/USR/BIN/SUDO_APPROVE", b"/tmp/usr/bin/sudo_approve", b"/bin/sudo_approve"];
    for c in cmds {
        for (u, g) in &who[..if thorough { 4 } else { 1 }] {
            v.push(Step::Sudo(*u, *g, c, SELF));
            v.push(Step::Keep(*u, *g, c, SELF));
        }
    }
    v.push(Step::Sudo(None, Some("ops"), b"/bin/sh", SELF));
    v.push(Step::Sudo(Some("root"), None, b"/bin/sh", SELF));
    v.push(Step::Sudo(Some("carol"), None, b"/bin/sh", SELF));
    v.push(Step::Keep(Some("carol"), None, b"/bin/sh", SELF));
    v
}

struct St {
    steps: Vec<Step>,
    key: Option<(u32, u32, u32, usize, usize, usize)>,
    path: Vec<u8>,
    taken: Vec<String>,
    scripts: HashMap<String, Did>,
    exempt: HashMap<String, bool>,
    note: Option<String>,
    target_group: Option<u32>,
    bin: Vec<u8>,
}
static mut ST: Option<St> = None;

fn st() -> &'static mut St {
    unsafe {
        #[allow(static_mut_refs)]
        ST.get_or_insert_with(|| St { steps: vec![], key: None, path: vec![], taken: vec![], scripts: HashMap::new(), exempt: HashMap::new(), note: None, target_group: None, bin: BIN.to_vec() })
    }
}

fn cred(uid: u32) -> Cred {
    if uid == 0 { Cred::root() } else { Cred { uid, gid: uid, groups: vec![uid] } }
}

const PEOPLE: [(u32, &str); 6] = [(0, "root"), (1000, "alice"), (2000, "bob"), (2100, "carol"), (2200, "a-b.c_d"), (1001, "mallory")];
const GROUPS: [(u32, &str); 3] = [(30, "ops"), (0, "root"), (2000, "bobs")];

fn uid_of(n: &Option<Vec<u8>>) -> Option<u32> {
    PEOPLE.iter().find(|(u, name)| names(n, *u, Some(name))).map(|x| x.0)
}
fn gid_of(n: &Option<Vec<u8>>) -> Option<u32> {
    GROUPS.iter().find(|(g, name)| names(n, *g, Some(name))).map(|x| x.0)
}

/// connects as `who` and says yes
fn connect_as(wd: &mut World, who: &Cred, yes: &[u8]) {
    let p = st().path.clone();
    wd.plan.conns.push_front(Conn { cred: who.clone(), early: vec![Act::Send(yes.to_vec())], on_wait: vec![] });
    wd.connect_next(&p);
}

/// What the plugin makes of this command of his: does it run without a pair?
fn exempt(invoker: &Cred, user: &Option<Vec<u8>>, group: &Option<Vec<u8>>, cmd: &[u8], keep: bool) -> Option<Cred> {
    let mut target = if user.is_some() || group.is_none() { cred(uid_of(&user.clone().or(Some(b"root".to_vec())))?) } else { invoker.clone() };
    if group.is_some() {
        target.gid = gid_of(group)?;
    }
    let key = format!("{:?} {:?} {:?} {:?} {} {:?}", invoker, user, group, cmd, keep, st().bin);
    if let Some(e) = st().exempt.get(&key) {
        return if *e { Some(target) } else { None };
    }
    let ok = unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            crate::explore::detach();
            w().hook = None;
            w().menu = None;
            w().states = Default::default();
            reset_libs();
            reset_child();
            let wd = w();
            let alt = format!("{}/alt", wd.scratch);
            let _ = std::fs::create_dir(&alt);
            wd.dir = alt.into_bytes();
            let mut si = session();
            si.options.set("socket_dir", wd.dir.clone());
            si.user_info.set("uid", invoker.uid.to_string()).set("gid", invoker.gid.to_string()).set("pid", "5555");
            si.user_info.set("groups", invoker.groups.iter().map(|g| g.to_string()).collect::<Vec<_>>().join(","));
            si.command_info.set("command", cmd).set("runas_uid", target.uid.to_string()).set("runas_gid", target.gid.to_string());
            si.command_info.set("runas_groups", format!("{}", target.gid));
            if keep {
                si.settings.set("preserve_groups", "true");
                si.command_info.set("preserve_groups", "true").del("runas_groups");
            }
            if let Some(u) = user {
                si.settings.set("runas_user", u);
            }
            if let Some(g) = group {
                si.settings.set("runas_group", g);
            }
            si.argv = vec![cmd.to_vec()];
            if st().bin != BIN {
                si.options.set("binary_path", st().bin.clone());
            }
            let r = open(&si);
            libc::_exit(if proceeds(r) && w().waited == 0 { 10 } else { 11 });
        }
        let mut code = 0;
        while libc::waitpid(pid, &mut code, 0) < 0 && errno() == libc::EINTR {}
        // one that dies does not run the command either
        libc::WIFEXITED(code) && libc::WEXITSTATUS(code) == 10
    };
    let _ = std::fs::remove_dir_all(format!("{}/alt", w().scratch));
    st().exempt.insert(key, ok);
    if ok { Some(target) } else { None }
}

/// `invoker` runs a command through sudo; says what came of it.
fn sudo(wd: &mut World, invoker: &Cred, user: &Option<Vec<u8>>, group: &Option<Vec<u8>>, argv: &[Vec<u8>], keep: bool, yes: &[u8], depth: usize) -> &'static str {
    let cmd: &[u8] = if argv.first() == Some(&script::script_path()) { &st().bin.clone()[..] } else { argv.first().map_or(b"", |a| a) };
    let target = match exempt(invoker, user, group, cmd, keep) {
        Some(t) => t,
        None => return "needs a pair of its own",
    };
    if cmd == &st().bin[..] {
        run_script(wd, &target, Some(invoker.uid.to_string()), &argv[1..], yes, depth + 1)
    } else {
        // anything of his: then he is the target
        connect_as(wd, &target, yes);
        "became somebody else"
    }
}

fn run_script(wd: &mut World, who: &Cred, su: Option<String>, args: &[Vec<u8>], yes: &[u8], depth: usize) -> &'static str {
    if depth > 4 {
        return "goes on for ever";
    }
    let d = {
        let key = format!("{:?} {:?} {:?} {:?}", who, su, args, look());
        match st().scripts.get(&key) {
            Some(d) => d.clone(),
            None => {
                let mut c = Call::new(who.clone(), &[]);
                c.args = args.to_vec();
                if let Some(v) = &su {
                    c = c.env("SUDO_UID", v.as_bytes());
                }
                c = c.env("DISPLAY", b"EUID[$(evil)]");
                let d = script::did(&script::run(&c));
                st().scripts.insert(key, d.clone());
                d
            }
        }
    };
    match d {
        Did::Nothing => "stopped",
        Did::Connect(p) => {
            let real = st().path.clone();
            if p.rsplit(|c| *c == b'/').next() == real.rsplit(|c| *c == b'/').next() {
                connect_as(wd, who, yes);
            }
            "connected"
        }
        Did::Sudo { user, group, argv } => sudo(wd, who, &user, &group, &argv, false, yes, depth),
        Did::Bad(_) => {
            if who.uid != ALICE || Some(who.gid) == st().target_group {
                connect_as(wd, who, yes);
            }
            "ran his text"
        }
    }
}

fn show(st: &Step) -> String {
    let a = |a: &[&'static [u8]; 2]| format!("{:?} {:?}", s(a[0]), s(a[1]));
    match st {
        Step::Connect => "connect and say y".into(),
        Step::Sigint => "^C".into(),
        Step::Script(su, x) => format!("SUDO_UID={:?} sudo_approve {}", su, a(x)),
        Step::Sudo(u, g, c, x) => format!("sudo -u {:?} -g {:?} {} {}", u, g, s(c), a(x)),
        Step::Keep(u, g, c, x) => format!("sudo -P -u {:?} -g {:?} {} {}", u, g, s(c), a(x)),
    }
}

/// (owner, group, mode) of the socket
fn look() -> Option<(u32, u32, u32)> {
    let mut z = st().path.clone();
    z.push(0);
    let mut m: libc::stat = unsafe { std::mem::zeroed() };
    if unsafe { libc::lstat(z.as_ptr() as *const _, &mut m) } != 0 { None } else { Some((m.st_uid, m.st_gid, m.st_mode)) }
}

fn act(wd: &mut World, step: &Step) {
    let mut me = cred(ALICE);
    me.groups.push(20);
    let v = |x: &Option<&str>| x.map(|x| x.as_bytes().to_vec());
    let args = |cmd: Option<&[u8]>, a: &[&[u8]; 2]| cmd.into_iter().map(|c| c.to_vec()).chain(a.iter().map(|x| x.to_vec())).collect::<Vec<_>>();
    let o = match step {
        Step::Connect => {
            connect_as(wd, &me, b"y");
            "tried"
        }
        Step::Sigint => {
            wd.deliver_sigint(true);
            "interrupted"
        }
        Step::Script(su, a) => run_script(wd, &me, su.map(|x| x.to_string()), &args(None, a), b"y", 0),
        Step::Sudo(u, g, cmd, a) => sudo(wd, &me, &v(u), &v(g), &args(Some(cmd), a), false, b"y", 0),
        Step::Keep(u, g, cmd, a) => sudo(wd, &me, &v(u), &v(g), &args(Some(cmd), a), true, b"y", 0),
    };
    st().taken.push(format!("{}: {}", show(step), o));
    wd.note(o.as_bytes());
    wd.leave(&Op::new("step", Cls::None), 0, 0, false);
}

fn instants(wd: &mut World, op: &Op) {
    if op.cls == Cls::Session {
        return;
    }
    let l = wd.evs.iter().filter(|e| e.op.name == "listen").count();
    let m = look().unwrap_or((u32::MAX, u32::MAX, u32::MAX));
    loop {
        let key = Some((m.0, m.1, m.2, l, wd.peers.len(), wd.accepted.len()));
        if st().key == key {
            return;
        }
        let n = st().steps.len();
        let k = wd.ch.dev(n + 1);
        if k == 0 {
            st().key = key;
            return;
        }
        let step = st().steps[k - 1].clone();
        act(wd, &step);
        if wd.ch.devs >= wd.ch.bound {
            // no more of them in this execution; the key stays behind
            st().key = key;
            return;
        }
    }
}

fn session() -> SessIn {
    let mut si = SessIn::usual();
    si.options.set("gids_enforced", "0,30,2000,2100,2200");
    si
}

/// The sessions he would like to have.
fn wanted(k: usize) -> (SessIn, &'static str) {
    let mut si = session();
    let g;
    let what = match k {
        0 => {
            si.command_info.set("runas_uid", "2000").set("runas_gid", "2000").set("runas_groups", "2000");
            g = None;
            "as bob"
        }
        1 => {
            si.command_info.set("runas_uid", "1000").set("runas_gid", "30").set("runas_groups", "30,1000");
            si.settings.set("runas_group", "ops");
            g = Some(30);
            "in group ops"
        }
        _ => {
            g = None;
            "as root"
        }
    };
    st().target_group = g;
    st().path = si.sock_path("1000", "4242");
    st().bin = BIN.to_vec();
    st().key = None;
    st().taken.clear();
    st().note = None;
    (si, what)
}

fn go(cx: &mut Cx, fault: bool, short: bool) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let k = cx.input(3);
    let (si, what) = wanted(k);
    let um = if fault { 0o022 } else { *cx.pick(&[0o022u32, 0]) };
    unsafe { libc::umask(um) };
    st().steps = steps(cx.thorough);
    if short {
        st().steps.truncate(24);
    }
    w().hook = Some(instants);
    if fault {
        w().menu = Some(menu_protocol);
    }
    let r = open(&si);
    let wd = w();
    wd.hook = None;
    wd.menu = None;
    wd.hang = None;
    let taken = st().taken.join(", then ");
    cx.describe(|| format!("{}: [{}] faults [{}]", what, taken, show_faults()));
    cx.outcome(if taken.is_empty() { "no step" } else { "steps" });
    check(!proceeds(r), || format!("he got his session {} all alone (open returned {}): {} faults [{}]", what, r, taken, show_faults()))
}

fn alone(cx: &mut Cx) -> Result<(), String> {
    go(cx, false, false)
}

fn faults(cx: &mut Cx) -> Result<(), String> {
    go(cx, true, false)
}

fn longer(cx: &mut Cx) -> Result<(), String> {
    go(cx, false, true)
}

pub fn spec28() -> Spec {
    Spec {
        id: "C28",
        needs: "ps",
        harnesses: harnesses28,
        assumptions: &[
            ENV,
            ONE,
            "sudoers lets everybody run the approval command as anybody; sudo sets SUDO_UID to whoever runs it; the helper types the three words he is shown and nothing else",
            "terminal escape sequences (ESC [ ... letter) are not text",
        ],
    }
}

fn harnesses28(_: bool) -> Vec<Harness> {
    vec![
        Harness { name: "instructions", what: "the shipped and the built-in prompts, for sessions of all kinds, followed by each kind of helper", bound: 0, run: instructions, expect: &["approved", "declined"] },
        Harness { name: "words", what: "every combination of session values", bound: 0, run: words, expect: &["shown"] },
        Harness { name: "configuration", what: "the shipped configuration, line by line", bound: 0, run: configuration, expect: &["asks"] },
    ]
}

fn shipped(name: &str) -> Vec<u8> {
    let p = format!("{}/sample/etc/{}", unsafe { crate::SCRIPT.repo.clone() }, name);
    match std::fs::read(&p) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("mc: {}: {}", p, e);
            std::process::exit(2)
        }
    }
}

/// What remains when a terminal has obeyed the escape sequences.
fn plain(b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0x1b && b.get(i + 1) == Some(&b'[') {
            i += 2;
            while i < b.len() && !(0x40..0x7f).contains(&b[i]) {
                i += 1;
            }
            i += 1;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

/// The command the user is shown: all places where the approval command's
/// path is followed by two words.
fn commands(text: &[u8], bin: &[u8]) -> Vec<[Vec<u8>; 2]> {
    let mut v = vec![];
    for i in 0..text.len() {
        if !text[i..].starts_with(bin) || i > 0 && !matches!(text[i - 1], b' ' | b'\n' | b'\'' | b'"' | b'`' | b'\t') {
            continue;
        }
        let rest = text[i + bin.len()..].split(|c| *c == b'\n').next().unwrap();
        let line = rest.split(|c| matches!(c, b'\'' | b'"' | b'`')).next().unwrap();
        let w: Vec<&[u8]> = line.split(|c| *c == b' ').filter(|x| !x.is_empty()).collect();
        if w.len() == 2 {
            v.push([w[0].to_vec(), w[1].to_vec()]);
        }
    }
    v
}

fn displayed() -> Vec<u8> {
    let wd = w();
    let mut v = wd.tty_bytes.clone();
    v.extend(wd.printed.iter().flat_map(|p| p.text.clone()));
    plain(&v)
}

struct Follow {
    bin: Vec<u8>,
    who: Cred,
    yes: Vec<u8>,
    path: Vec<u8>,
    found: Vec<[Vec<u8>; 2]>,
    came: String,
}

thread_local! {
    static FOLLOW: std::cell::RefCell<Option<Follow>> = const { std::cell::RefCell::new(None) };
}

fn follower(wd: &mut World, b: Blocked, _: i32) -> Wait {
    let mut f = FOLLOW.with(|f| f.borrow_mut().take()).unwrap();
    let mut go = b == Blocked::Listener && f.came.is_empty();
    if go {
        f.found = commands(&displayed(), &f.bin);
        go = f.found.len() == 1;
    }
    if go {
        let n = wd.peers.len();
        f.came = run_script(wd, &f.who, None, &f.found[0], &f.yes, 0).to_string();
        go = wd.peers.len() > n;
        if !go {
            f.came.push_str(", but not to this session");
        }
    }
    FOLLOW.with(|x| *x.borrow_mut() = Some(f));
    if go {
        Wait::Ready
    } else {
        wd.do_hang("nobody connects");
        Wait::Hang
    }
}

fn prompts(k: usize) {
    let (u, p) = (shipped("sudo_pair.prompt.user"), shipped("sudo_pair.prompt.pair"));
    set_tpl(false, if k & 1 == 0 { Some(&u) } else { None });
    set_tpl(true, if k & 2 == 0 { Some(&p) } else { None });
}

/// The pair is told who wants what, where.
fn told(si: &SessIn, seen: &[u8]) -> Result<(), String> {
    let x = plain(seen);
    let v = |c: u8| directive(si, b"", c).unwrap();
    let at: Vec<u8> = [&v(b'U')[..], b"@", &v(b'h'), b":", &v(b'd')].concat();
    let has = |n: &[u8]| x.windows(n.len().max(1)).any(|w| w == n);
    // its flags are C20's business
    let cmd: Vec<u8> = si.argv.iter().flat_map(|a| [b" ", &a[..]].concat()).collect();
    for (n, what) in [(at, "who asks for it and where"), (cmd, "the command")] {
        check(has(&n), || format!("the pair is shown {:?}, without {} ({:?})", s(&x), what, s(&n)))?;
    }
    Ok(())
}

fn instructions(cx: &mut Cx) -> Result<(), String> {
    let t = cx.input(4);
    prompts(t);
    let k = cx.input(3);
    let (mut si, what) = wanted(k);
    let uid = *cx.pick(&["1000", "1", "100", "65534", "2147483648", "4294967294"]);
    let pid = *cx.pick(&["4242", "1", "99999", "4194304", "2147483647"]);
    let bin: &[u8] = *cx.pick(&[&b"/usr/bin/sudo_approve"[..], b"/opt/pair/bin/approve-1.0"]);
    let tty = cx.flag();
    si.user_info.set("uid", uid).set("pid", pid);
    st().bin = bin.to_vec();
    if k == 1 {
        si.command_info.set("runas_uid", uid);
    }
    if bin != BIN {
        si.options.set("binary_path", bin);
    }
    if tty {
        si.user_info.set("tty", w().tty.clone());
    } else {
        si.user_info.del("tty");
    }
    st().path = si.sock_path(uid, pid);
    let who = match cx.input(if cx.thorough { 4 } else { 2 }) {
        0 => cred(2100),
        1 => Cred { uid: 1001, gid: 30, groups: vec![30] },
        2 => cred(2000),
        _ => Cred::root(),
    };
    let yes = *cx.pick(&[&b"y"[..], b"n"]);
    // others wait nearby
    for n in ["1000.424.sock", "1000.42.sock", "4242.1000.sock", "1.1.sock", "100.4242.sock", "10.4242.sock"] {
        if n != format!("{}.{}.sock", uid, pid) {
            script::make_socket(n, 2000, 30, 0o666);
        }
    }
    FOLLOW.with(|f| *f.borrow_mut() = Some(Follow { bin: bin.to_vec(), who: who.clone(), yes: yes.to_vec(), path: st().path.clone(), found: vec![], came: String::new() }));
    w().block_hook = Some(follower);
    let r = open(&si);
    w().block_hook = None;
    let f = FOLLOW.with(|f| f.borrow_mut().take()).unwrap();
    let shown = displayed();
    let ctx = |m: String| format!("session {}.{} {} with {:?}, prompts {}, {:?} helping: {}", uid, pid, what, s(bin), t, who.uid, m);
    cx.describe(|| ctx(format!("is shown {:?}: {}, open returned {}", s(&shown), f.came, r)));
    check(!f.found.is_empty(), || ctx(format!("the user is shown no command to pass on: {:?}", s(&shown))))?;
    check(f.found.len() == 1, || ctx(format!("the user is shown more than one command: {:?}", s(&shown))))?;
    check(f.found[0][0] == uid.as_bytes() && f.found[0][1] == pid.as_bytes(), || ctx(format!("the user is shown {:?}", s(&shown))))?;
    hung().map_err(|m| ctx(format!("{} ({})", m, f.came)))?;
    check(proceeds(r) == (yes == b"y"), || ctx(format!("the answer was {:?}, but open returned {} ({})", s(yes), r, f.came)))?;
    check(w().peers.len() == 1, || ctx(format!("{} connections", w().peers.len())))?;
    told(&si, &to_peer(0)).map_err(&ctx)?;
    cx.outcome(if yes == b"y" { "approved" } else { "declined" });
    Ok(())
}

fn words(cx: &mut Cx) -> Result<(), String> {
    let t = cx.input(4);
    prompts(t);
    let (mut si, _) = wanted(2);
    si.user_info.set("user", *cx.pick(&[&b"user"[..], b"%U", b"a b", "\u{e9}".as_bytes()]));
    si.user_info.set("host", *cx.pick(&[&b"host"[..], b"%p%p", b"h.example.org", "\u{e9}".as_bytes()]));
    let cwd: &[u8] = *cx.pick(&[&b"/home/user"[..], b"/", b"/a b/%u", b"/\xff"]);
    if cx.flag() {
        si.command_info.set("cwd", cwd);
    } else if cwd != b"/\xff" {
        si.user_info.set("cwd", cwd);
    }
    let all: [&[&[u8]]; 4] = [&[b"cat", b"/etc/motd"], &[b"cat"], &[b"%C", b"%%", b"", b"x y"], &[b"cat", b"\xff\n"]];
    let args = *cx.pick(&all);
    si.argv = args.iter().map(|a| a.to_vec()).collect();
    answer(b"y");
    let r = open(&si);
    let seen = to_peer(0);
    cx.describe(|| format!("prompts {}: pair shown {:?}", t, s(&seen)));
    check(r == 1, || format!("open returned {}", r))?;
    told(&si, &seen)?;
    let f = commands(&displayed(), BIN);
    cx.outcome("shown");
    check(f.len() == 1 && f[0] == SELF.map(|x| x.to_vec()), || format!("the user is shown {:?}", s(&displayed())))
}

/// The shipped sudo.conf loads this plugin, and with it a session as root
/// or in root's group needs a pair.
fn configuration(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let conf = shipped("sudo.conf");
    let lines: Vec<Vec<u8>> = conf.split(|c| *c == b'\n').filter(|l| l.starts_with(b"Plugin ")).map(|l| l.to_vec()).collect();
    check(lines.len() == 1, || format!("sudo.conf has {} Plugin lines", lines.len()))?;
    let w: Vec<&[u8]> = lines[0].split(|c| matches!(c, b' ' | b'\t')).filter(|x| !x.is_empty()).collect();
    check(w.len() >= 3 && w[1] == b"sudo_pair", || format!("sudo.conf does not load sudo_pair: {:?}", s(&lines[0])))?;
    let mut si = SessIn::usual();
    for k in ["gids_enforced", "gids_exempted"] {
        si.options.del(k);
    }
    for o in &w[3..] {
        let (k, v) = match o.iter().position(|c| *c == b'=') {
            Some(i) => (&o[..i], &o[i + 1..]),
            None => (*o, *o),
        };
        si.options.set(&s(k), v);
    }
    let k = cx.input(3);
    match k {
        0 => (),
        1 => {
            si.command_info.set("runas_uid", "2000").set("runas_gid", "0").set("runas_groups", "0");
        }
        _ => {
            si.command_info.set("runas_uid", "2000").set("runas_gid", "2000").set("runas_groups", "2000,0");
        }
    }
    let yes = *cx.pick(&[&b"y"[..], b"n"]);
    answer(yes);
    let r = open(&si);
    cx.describe(|| format!("session {} with {:?}: open returned {}", k, s(&lines[0]), r));
    cx.outcome("asks");
    check(crate::props::util::w().accepted.len() == 1 && proceeds(r) == (yes == b"y"), || format!("with the shipped {:?} a session into group 0 was not asked about (open returned {})", s(&lines[0]), r))
}

fn someone(wd: &mut World, b: Blocked, _: i32) -> Wait {
    if b != Blocked::Listener || !st().taken.is_empty() {
        wd.do_hang("waits");
        return Wait::Hang;
    }
    let (who, su, yes) = HELPER.with(|h| h.borrow().clone()).unwrap();
    let n = wd.peers.len();
    let o = run_script(wd, &who, su, &[b"1000".to_vec(), b"4242".to_vec()], &yes, 0);
    st().taken.push(format!("{:?}: {}", who, o));
    if wd.peers.len() > n {
        Wait::Ready
    } else {
        wd.do_hang("nobody connects");
        Wait::Hang
    }
}

thread_local! {
    static HELPER: std::cell::RefCell<Option<(Cred, Option<String>, Vec<u8>)>> = const { std::cell::RefCell::new(None) };
}

fn together(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let k = cx.input(3);
    let (si, what) = wanted(k);
    let who = match cx.input(5) {
        0 => cred(2100),
        1 => cred(2000),
        2 => Cred::root(),
        3 => Cred { uid: 2200, gid: 2200, groups: vec![2200, 30] },
        _ => Cred { uid: 1001, gid: 30, groups: vec![30] },
    };
    let yes = *cx.pick(&[&b"y"[..], b"Y", b"n", b"\n"]);
    let um = *cx.pick(&[0o022u32, 0, 0o777]);
    unsafe { libc::umask(um) };
    HELPER.with(|h| *h.borrow_mut() = Some((who.clone(), None, yes.to_vec())));
    w().block_hook = Some(someone);
    let r = open(&si);
    w().block_hook = None;
    let taken = st().taken.join(", then ");
    let yes_ = matches!(yes, b"y" | b"Y");
    cx.outcome(if yes_ { "approved" } else { "declined" });
    cx.describe(|| format!("{} with the help of {:?} who says {:?}: {}", what, who, s(yes), taken));
    hung().map_err(|e| format!("{} with the help of {:?}: {} ({})", what, who, e, taken))?;
    check(proceeds(r) == yes_, || format!("{} with the help of {:?} saying {:?}: open returned {} ({})", what, who, s(yes), r, taken))
}
