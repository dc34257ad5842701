//! What went before in the same process: whatever sessions sudo ran before,
//! a session is judged as if it were the first.  Every harness of the pair
//! plugin and of the probes is run again after each of these histories.

use super::drv;
use super::util::*;

pub const HISTORIES: [&str; 3] = [
    "after sessions exempt, malformed, refused, interrupted, declined, approved",
    "after sessions approved, abandoned by the pair, declined, of the version kind, exempt",
    "after sessions approved, exempt, then one declined and never closed",
];

#[derive(Clone, Copy)]
enum Kind {
    Exempt,
    Malformed,
    Refused,
    Interrupted,
    Declined,
    Approved,
    Abandoned,
    Version,
}

use Kind::*;

fn order(k: usize) -> &'static [Kind] {
    match k {
        1 => &[Exempt, Malformed, Refused, Interrupted, Declined, Approved],
        2 => &[Approved, Abandoned, Declined, Version, Exempt],
        _ => &[Approved, Exempt, Declined],
    }
}

pub fn run(k: usize, pair_plugin: bool, probe: bool) {
    if pair_plugin {
        set_tpl(false, Some(b"an earlier prompt %u\n"));
        set_tpl(true, Some(b"an earlier pair's prompt %C %p\n"));
        for (i, s) in order(k).iter().enumerate() {
            session(*s, i);
        }
    }
    if probe {
        probes(k);
    }
    for p in w().peers.iter_mut() {
        if p.fd >= 0 {
            unsafe { libc::close(p.fd) };
            p.fd = -1;
        }
    }
    reset_world();
}

fn facts(i: usize) -> SessIn {
    let mut si = SessIn::usual();
    let n = |k: usize| (k + i).to_string();
    si.user_info
        .set("uid", n(7001))
        .set("gid", n(7101))
        .set("groups", format!("{},{}", n(7101), n(7201)))
        .set("pid", n(77_001))
        .set("ppid", n(76_001))
        .set("pgid", n(76_101))
        .set("user", format!("earlier{}", i))
        .set("host", "earlier-host")
        .set("cwd", "/earlier")
        .set("lines", n(50))
        .set("cols", n(150));
    si.command_info.set("command", "/earlier/command").set("cwd", "/earlier/run").set("iolog_ttyin", "true").set("iolog_stdin", "true").set("iolog_stdout", "false");
    si.options.set("gids_enforced", "0,77").set("gids_exempted", "88").set("binary_path", "/earlier/approve").set("tag", n(700_000));
    si.argv = vec![b"earlier".to_vec(), b"argument".to_vec(), n(0).into_bytes()];
    si.env.0.push(b"EARLIER=1".to_vec());
    si
}

fn session(k: Kind, i: usize) {
    let mut si = facts(i);
    // what is in force differs, too
    unsafe { libc::umask(0o027 - i as u32) };
    match k {
        Interrupted => sigint_handler(libc::SA_RESTART, &[libc::SIGTERM]),
        _ => sigint_plain(if i % 2 == 0 { libc::SIG_DFL } else { libc::SIG_IGN }, libc::SA_RESTART, &[libc::SIGUSR1]),
    }
    w().plan = Plan::default();
    match k {
        Exempt => {
            si.user_info.set("uid", "0").set("groups", "0,88");
        }
        Malformed => {
            si.user_info.del("pid");
        }
        Refused => {
            si.settings.set("runas_group", "ops").set("runas_user", "root");
        }
        Version => {
            si.command_info.del("command");
        }
        Interrupted => w().plan.conns.push_back(Conn { cred: Cred::root(), early: vec![], on_wait: vec![Act::Sigint] }),
        Declined => answer(b"n"),
        Approved | Abandoned => answer(b"y"),
    }
    let n = w().peers.len();
    let r = open(&si);
    if matches!(k, Version) {
        version_at(pair(), 1);
    }
    if r != 1 || matches!(k, Version) {
        if matches!(k, Version) {
            close();
        }
        return;
    }
    for st in [Stream::TtyOut, Stream::Stderr, Stream::TtyIn, Stream::Stdout] {
        log(st, b"earlier output");
    }
    winsize(50, 150);
    log(Stream::Stdin, b"earlier input");
    if matches!(k, Abandoned) && n < w().peers.len() {
        w().peer_act(n, Act::Close, true);
        log(Stream::TtyOut, b"to nobody");
        winsize(51, 151);
    }
    close();
}

fn probes(k: usize) {
    use drv::*;
    start(false);
    for i in 0..3 {
        let t = plugin((i + k) % 3);
        let mut si = facts(i);
        if k == 2 && i == 1 {
            si.user_info.del("uid");
        }
        if k == 3 && i == 1 {
            si.version = crate::abi::mkversion(1, 8);
        }
        if k == 1 && i == 2 {
            drv().code[OPEN as usize] = code(1, 2, 1, 0);
        }
        let r = open_at(t, &si);
        drv().code = [0; 10];
        if r == 1 {
            for st in STREAMS {
                log_at(t, st, b"earlier");
            }
            if k == 2 {
                drv().code[4] = 2;
                log_at(t, Stream::TtyOut, b"panics");
                drv().code = [0; 10];
            }
            winsize_at(t, 50, 150);
            version_at(t, 1);
        }
        close_at(t, 1, 2);
        take();
    }
}
