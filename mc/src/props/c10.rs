//! C10: prompts are exactly the configured template, expanded once.
//! C20: the pair is shown the whole command, flags and all.

use super::util::*;

pub fn spec10() -> Spec {
    Spec { id: "C10", needs: "p", harnesses: harnesses10, assumptions: &[ENV, ONE, "templates do not change while they are read"] }
}

pub fn spec20() -> Spec {
    Spec { id: "C20", needs: "p", harnesses: harnesses20, assumptions: &[ENV, ONE, "sudo records each flag under the key its documentation names, booleans as true or false"] }
}

fn harnesses10(t: bool) -> Vec<Harness> {
    let _ = t;
    vec![
        Harness { name: "templates", what: "every template over 18 symbols up to the bound, shown to the user on a terminal and to the pair", bound: 0, run: templates, expect: &["shown"] },
        Harness { name: "bytes", what: "every byte after a %, alone, doubled and between other bytes", bound: 0, run: bytes, expect: &["shown"] },
        Harness { name: "texts", what: "texts of special meaning at the beginning, amid and at the end of both templates, in pairs, and every template of two bytes", bound: 0, run: texts, expect: &["shown"] },
        Harness { name: "values", what: "every directive with values holding %, directives, NUL-free odd bytes, nothing, and extremes", bound: 0, run: values, expect: &["shown"] },
        Harness { name: "constants", what: "every text and number the code under test is written with as every directive's value, in templates, and as their length", bound: 0, run: constants, expect: &["shown"] },
        Harness { name: "sizes", what: "template and value sizes around buffer limits", bound: 0, run: sizes, expect: &["shown"] },
        Harness { name: "long_values", what: "values of every directive's source, of lengths around every power of two", bound: 0, run: long_values10, expect: &["shown"] },
        Harness { name: "sources", what: "each template present, empty, missing, unreadable, a directory, dangling, looping, with failing opens and reads", bound: if t { 3 } else { 2 }, run: sources, expect: &["shown"] },
        Harness { name: "no_terminal", what: "the user's prompt by sudo's error channel, every template up to the bound", bound: 0, run: no_terminal, expect: &["shown"] },
    ]
}

/// Opens with answer y; both prompts as they were shown.
fn shown(cx: &mut Cx, si: &SessIn) -> Result<(Vec<u8>, Vec<u8>), String> {
    let echo = b"y\n";
    let mut got = pair_up(si)?;
    cx.outcome("shown");
    check(got.ends_with(echo), || format!("the pair's answer was not echoed: {:?}", s(&got)))?;
    got.truncate(got.len() - echo.len());
    let wd = w();
    let mut user = wd.tty_bytes.clone();
    let by_sudo = printed(crate::abi::CONV_ERROR);
    if user.is_empty() {
        user = by_sudo;
    } else {
        check(by_sudo.is_empty(), || format!("the user was shown {:?} on the terminal and {:?} through sudo as well", s(&user), s(&by_sudo)))?;
    }
    Ok((user, got))
}

fn compare(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    check(got == want, || {
        let at = got.iter().zip(want).take_while(|(a, b)| a == b).count();
        let from = at.saturating_sub(40);
        format!("the {} prompt is {:?} not {:?} (from byte {} of {} / {})", what, s(&got[from..]), s(&want[from..]), from, got.len(), want.len())
    })
}

fn with_tty(si: &mut SessIn) {
    let _ = std::fs::write(std::str::from_utf8(&w().tty).unwrap(), b"");
    si.user_info.set("tty", w().tty.clone());
}

fn both(cx: &mut Cx, si: &SessIn, user_t: &[u8], pair_t: &[u8]) -> Result<(), String> {
    let (u, p) = shown(cx, si)?;
    let f = |c: u8| directive(si, b"", c);
    compare("user's", &u, &expand(user_t, &f))?;
    compare("pair's", &p, &expand(pair_t, &f))
}

const ALPHA: [&[u8]; 18] = [b"%", b"b", b"B", b"C", b"d", b"h", b"H", b"g", b"p", b"u", b"U", b"W", b"z", b"\n", b"\xff", b"\0", b"\x1b[1m", b"5"];

fn distinct(si: &mut SessIn) {
    si.user_info.set("lines", "31").set("cols", "123").set("gid", "1007").set("host", "hst.dom.example").set("user", "usr").set("cwd", "/ucwd");
    si.options.set("binary_path", "/opt/x/approve.d/ok.sh");
}

fn templates(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    distinct(&mut si);
    with_tty(&mut si);
    let n = cx.qt(4, 5);
    // the first three symbols are % or a few others in the deepest layer
    let t = word(cx, &ALPHA, n);
    set_tpl(false, Some(&t));
    set_tpl(true, Some(&t));
    cx.describe(|| format!("template {:?}", s(&t)));
    both(cx, &si, &t, &t)
}

fn bytes(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    distinct(&mut si);
    with_tty(&mut si);
    let b = cx.input(256) as u8;
    let t = match cx.input(8) {
        0 => vec![b'%', b],
        1 => vec![b'%', b, b],
        2 => vec![b, b'%', b, b'%'],
        3 => vec![b'%', b'%', b],
        4 => vec![b'%', b'%', b'%', b],
        5 => vec![b],
        6 => vec![b, b'%'],
        _ => vec![b'%', b'u', b, b'%', b, b'p'],
    };
    set_tpl(false, Some(&t));
    set_tpl(true, Some(&t));
    cx.describe(|| format!("template {:?}", s(&t)));
    both(cx, &si, &t, &t)
}

fn texts(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    distinct(&mut si);
    let tty = cx.flag();
    if tty {
        with_tty(&mut si);
    }
    let (t, u) = if cx.flag() {
        let a = ODD[cx.input(ODD.len())];
        let b = ODD[cx.input(ODD.len())];
        ([a, b"wait %u", b].concat(), [b"x", a, b, b"%C"].concat())
    } else {
        let n = cx.qt(32, 256);
        let a = cx.input(256) as u8;
        let b = if n == 256 { cx.input(256) as u8 } else { *cx.pick(&b"\0\x01\x03\x07\x08\t\n\x0b\x0c\r\x1b !#%&-/:;=A\\\x7f\x80\x9b\xbf\xc3\xef\xfe\xff"[..]) };
        (vec![a, b], vec![b, a])
    };
    if !tty && t.contains(&0) {
        return Ok(()); // sudo's printf cannot print it
    }
    set_tpl(false, Some(&t));
    set_tpl(true, Some(&u));
    cx.describe(|| format!("templates {:?} {:?}", s(&t), s(&u)));
    both(cx, &si, &t, &u)
}

fn values(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    distinct(&mut si);
    with_tty(&mut si);
    let which = cx.input(13);
    let text: &[&[u8]] = &[b"%u", b"%", b"%%", b"%C%C", b"", b"a%", b"x\ny", b"\x1b]0;t\x07", b"%\xc3\xa9", b"100%s%n", b"a=b", b" ", b"\\", b"$(id)"];
    let raw: &[&[u8]] = &[b"/%u", b"/%", b"/%%C", b"/a\xff", b"/\x80%p", b"/a b", b"/a=b", b"/\n", b"/-", b"/%d%d", b"relative/%u", b"a", b"./x"];
    let nums: &[&str] = &["0", "1", "65535", "4294967295", "2147483647"];
    let dims: &[&str] = &["0", "1", "65535", "18446744073709551615"];
    match which {
        0 => {
            si.user_info.set("user", cx.pick(text));
        }
        1 => {
            si.user_info.set("host", cx.pick(text));
        }
        2 => {
            si.user_info.set("cwd", *cx.pick(&[&b"/%u"[..], b"/%", b"/%%C", b"/\xc3\xa9", b"/a b", b"", b"/%d", b"relative", b"/a=b=c"]));
        }
        3 => {
            si.command_info.set("cwd", cx.pick(raw));
        }
        4 => {
            si.argv = vec![b"cat".to_vec(), cx.pick(text).to_vec(), cx.pick(raw).to_vec()];
        }
        5 => {
            si.argv[0] = cx.pick(raw).to_vec();
        }
        6 => {
            si.settings.set("progname", *cx.pick(&["sudo", "sudoedit", "%u", "%", "su do", "", "%C"]));
        }
        7 => {
            si.options.set("binary_path", *cx.pick(&["/usr/bin/sudo_approve", "/a/%u", "/%", "x", "/a b/c d", "/a/b%Bc", "/%b/%b", "/opt/approve.sh", "/a/.b.c", "../x/y.z", "/a.b/c"]));
        }
        8 => {
            si.user_info.set("gid", *cx.pick(nums));
        }
        9 => {
            si.user_info.set("pid", *cx.pick(&["1", "32768", "4194304", "2147483647"]));
        }
        10 => {
            si.user_info.set("uid", *cx.pick(&nums[1..]));
        }
        11 => {
            match cx.input(2) {
                0 => si.user_info.set("lines", *cx.pick(dims)),
                _ => si.user_info.del("lines"),
            };
        }
        _ => {
            match cx.input(2) {
                0 => si.user_info.set("cols", *cx.pick(dims)),
                _ => si.user_info.del("cols"),
            };
        }
    }
    let all = b"b=%b B=%B C=%C d=%d h=%h H=%H g=%g p=%p u=%u U=%U W=%W";
    let ts: &[&[u8]] = &[all, b"%C%d", b"%%C%%d", b"%U%U%h%h", b"%"];
    let t = *cx.pick(ts);
    set_tpl(false, Some(t));
    set_tpl(true, Some(t));
    cx.describe(|| format!("value {} template {:?} user_info {:?} argv {:?}", which, s(t), si.user_info.0.iter().map(|x| s(x)).collect::<Vec<_>>(), si.argv.iter().map(|x| s(x)).collect::<Vec<_>>()));
    both(cx, &si, t, t)
}

fn constants(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    distinct(&mut si);
    if cx.flag() {
        with_tty(&mut si);
    }
    let texts = crate::dict::texts();
    let mut tpl = b"b=%b B=%B C=%C d=%d h=%h H=%H g=%g p=%p u=%u U=%U W=%W".to_vec();
    let which = cx.input(17);
    let d;
    if which < 12 {
        let t = cx.pick(texts);
        d = s(t);
        if which < 4 && std::str::from_utf8(t).is_err() {
            return Ok(());
        }
        match which {
            0 => drop(si.user_info.set("user", t)),
            1 => drop(si.user_info.set("host", t)),
            2 => {
                if std::str::from_utf8(t).is_err() {
                    return Ok(());
                }
                si.user_info.set("cwd", t);
            }
            3 => drop(si.command_info.set("cwd", t)),
            4 => si.argv[0] = t.clone(),
            5 => si.argv.push(t.clone()),
            6 => {
                if std::str::from_utf8(t).is_err() {
                    return Ok(());
                }
                si.settings.set("progname", t);
            }
            7 => {
                // (a list of options is split at blanks, and sudo takes none twice)
                if t.iter().any(|c| c.is_ascii_whitespace()) || std::path::Path::new(std::str::from_utf8(t).unwrap_or("/")).file_name().is_none() || t.contains(&b'%') {
                    return Ok(());
                }
                si.options.set("binary_path", t);
            }
            8 => tpl = t.clone(),
            9 => tpl = [b"%u", &t[..]].concat(),
            10 => tpl = [&t[..], b"%p"].concat(),
            _ => tpl = [&t[..], t].concat(),
        }
    } else if which < 16 {
        let n = *cx.pick(&crate::dict::near([u32::MAX as u64, i32::MAX as u64, u64::MAX, u64::MAX][which - 12]));
        let n = n.to_string();
        si.user_info.set(["gid", "pid", "lines", "cols"][which - 12], &n);
        d = n;
    } else {
        let n = *cx.pick(&crate::dict::near(150_000)) as usize;
        let how = cx.input(3);
        tpl = match how {
            0 => vec![b'a'; n],
            1 => [&vec![b'a'; n][..], b"%u"].concat(),
            _ => {
                if n > 60_000 {
                    return Ok(());
                }
                si.argv.push(vec![b'a'; n]);
                b"%C".to_vec()
            }
        };
        d = format!("{} bytes", n);
    }
    set_tpl(false, Some(&tpl));
    set_tpl(true, Some(&tpl));
    cx.describe(|| format!("place {} {:?}", which, d));
    both(cx, &si, &tpl, &tpl)
}

fn sizes(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    distinct(&mut si);
    with_tty(&mut si);
    let n = *cx.pick(&[0usize, 1, 31, 32, 33, 255, 256, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 131_071, 131_072, 131_073, 150_000]);
    let t: Vec<u8> = match cx.input(4) {
        0 => (0..n).map(|i| b"abcdefg\n"[i % 8]).collect(),
        1 => (0..n).map(|i| b"%u"[i % 2]).collect(),
        2 => {
            let a = pattern(n.min(60000), 0).iter().map(|b| b % 90 + 33).collect::<Vec<_>>();
            si.argv = vec![b"cat".to_vec(), a];
            b"<%C>".to_vec()
        }
        _ => {
            let mut v: Vec<u8> = vec![b'x'; n];
            v.extend(b"%W%");
            v
        }
    };
    set_tpl(false, Some(&t));
    set_tpl(true, Some(&t));
    cx.describe(|| format!("{} bytes of template: {:?}", t.len(), s(&t)));
    both(cx, &si, &t, &t)
}

fn long_values10(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    distinct(&mut si);
    with_tty(&mut si);
    let mut ls = vec![100usize, 1000, 10_000];
    for k in 2..=17 {
        ls.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    let which = cx.input(9);
    let n = *cx.pick(&ls);
    // printable, with a % now and then
    let v: Vec<u8> = pattern(n, which).iter().map(|b| b % 90 + 33).collect();
    let path = [b"/", &v[1..]].concat();
    match which {
        0 => si.user_info.set("user", &v),
        1 => si.user_info.set("host", &v),
        2 => si.user_info.set("cwd", &path),
        3 => si.command_info.set("cwd", &path),
        4 => si.settings.set("progname", &v),
        5 => si.options.set("binary_path", &path),
        6 => {
            si.argv[0] = v.clone();
            &mut si.settings
        }
        7 => {
            // many parts
            let p: Vec<u8> = (0..n).map(|i| b"/a"[i % 2]).collect();
            si.user_info.set("cwd", &p);
            si.command_info.set("cwd", &p)
        }
        _ => {
            // a host of many labels
            let p: Vec<u8> = (0..n).map(|i| b"h."[i % 2]).collect();
            si.user_info.set("host", &p)
        }
    };
    let t: &[u8] = if cx.flag() { b"<%u%h%H%d%b%B%C>" } else { b"b=%b B=%B C=%C d=%d h=%h H=%H g=%g p=%p u=%u U=%U W=%W\n" };
    set_tpl(false, Some(t));
    set_tpl(true, Some(t));
    cx.describe(|| format!("value {} of {} bytes in {:?}", which, n, s(t)));
    both(cx, &si, t, t)
}

fn place(pair: bool, k: usize) -> Option<Vec<u8>> {
    let p = String::from_utf8(if pair { w().pair_tpl.clone() } else { w().user_tpl.clone() }).unwrap();
    let t: &[u8] = if pair { b"P:%U %C\n" } else { b"U:%u %p\n" };
    match k {
        0 => {
            set_tpl(pair, Some(t));
            return Some(t.to_vec());
        }
        1 => {
            set_tpl(pair, Some(b""));
            return Some(vec![]);
        }
        2 => set_tpl(pair, None),
        3 => {
            set_tpl(pair, None);
            let _ = std::fs::create_dir(&p);
        }
        4 => {
            set_tpl(pair, None);
            let _ = std::os::unix::fs::symlink("/dev/shm/mc-none/none", &p);
        }
        5 => {
            set_tpl(pair, None);
            let _ = std::os::unix::fs::symlink(&p, &p);
        }
        _ => {
            // through a link
            set_tpl(pair, None);
            let real = format!("{}.real", p);
            let _ = std::fs::write(&real, t);
            let _ = std::os::unix::fs::symlink(&real, &p);
            tpl_dirty();
            return Some(t.to_vec());
        }
    }
    tpl_dirty();
    None
}

fn sources(cx: &mut Cx) -> Result<(), String> {
    tpl_dirty();
    decoys();
    let mut si = SessIn::usual();
    distinct(&mut si);
    with_tty(&mut si);
    let (ku, kp) = (cx.input(7), cx.input(7));
    let mut ut = place(false, ku);
    let mut pt = place(true, kp);
    // a missing file, or a path that is not even one
    match cx.input(3) {
        0 => (),
        1 => {
            si.options.set("user_prompt_path", "/dev/shm/mc-none/a/b");
            ut = None;
        }
        _ => {
            si.options.set("pair_prompt_path", "");
            pt = None;
        }
    }
    fn menu(wd: &World, op: &Op, v: &mut Vec<Fault>) {
        if matches!(op.cls, Cls::UserTpl | Cls::PairTpl) {
            menu_courtesy(wd, op, v);
            if op.name == "read" {
                v.push(Fault::Err(libc::EINTR));
                if op.len > 1 {
                    v.push(Fault::Short(1));
                }
            }
        }
    }
    w().menu = Some(menu);
    let (u, p) = shown(cx, &si)?;
    w().menu = None;
    for (o, f) in w().faults_taken.iter() {
        // an interrupted or short read loses nothing
        if matches!(f, Fault::Err(e) if *e != libc::EINTR) {
            if o.cls == Cls::UserTpl { ut = None } else { pt = None }
        }
    }
    cx.describe(|| format!("user's {} pair's {} faults [{}]", ku, kp, show_faults()));
    let f = |c: u8| directive(&si, b"", c);
    compare("user's", &u, &expand(ut.as_deref().unwrap_or(DEF_USER), &f))?;
    compare("pair's", &p, &expand(pt.as_deref().unwrap_or(DEF_PAIR), &f))
}

fn no_terminal(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    distinct(&mut si);
    let n = cx.qt(3, 4);
    let a: Vec<&[u8]> = ALPHA.iter().copied().filter(|x| *x != b"\0").collect();
    let t = word(cx, &a, n);
    match cx.input(2) {
        0 => (),
        _ => {
            si.user_info.set("tty", "");
        }
    }
    set_tpl(false, Some(&t));
    set_tpl(true, Some(b"p"));
    cx.describe(|| format!("template {:?}", s(&t)));
    both(cx, &si, &t, b"p")
}

// ------------------------------------------------------------------ C20

fn harnesses20(t: bool) -> Vec<Harness> {
    let _ = t;
    vec![
        Harness { name: "flags", what: "every combination of the 18 flags", bound: 0, run: flags, expect: &["shown"] },
        Harness { name: "programs", what: "every name sudo goes by, every notation of sudoedit and each other flag", bound: 0, run: programs, expect: &["shown"] },
        Harness { name: "values", what: "every flag that takes a value with odd values, next to any other flag", bound: 0, run: flag_values, expect: &["shown"] },
        Harness { name: "argv", what: "every command line over an alphabet of odd elements up to the bound", bound: 0, run: argv, expect: &["shown"] },
        Harness { name: "constants", what: "every text and number the code under test is written with as program name, argument, flag's value, length and count", bound: 0, run: constants20, expect: &["shown"] },
        Harness { name: "long", what: "long elements and long command lines", bound: 0, run: long, expect: &["shown"] },
        Harness { name: "long_values", what: "long values of every flag that takes one", bound: 0, run: long_values, expect: &["shown"] },
    ]
}

/// (key, flag, takes a value)
const FLAGS: [(&str, &str, bool); 18] = [
    ("sudoedit", "--edit", false),
    ("runas_user", "--user", true),
    ("runas_group", "--group", true),
    ("prompt", "--prompt", true),
    ("login_shell", "--login", false),
    ("run_shell", "--shell", false),
    ("set_home", "--set-home", false),
    ("preserve_environment", "--preserve-env", false),
    ("preserve_groups", "--preserve-groups", false),
    ("ignore_ticket", "--reset-timestamp", false),
    ("noninteractive", "--non-interactive", false),
    ("login_class", "--login-class", true),
    ("selinux_role", "--role", true),
    ("selinux_type", "--type", true),
    ("bsdauth_type", "--auth-type", true),
    ("closefrom", "--close-from", true),
    ("remote_host", "--host", true),
    ("timeout", "--command-timeout", true),
];

/// Does `got` say progname, these flags in some order, then `rest`?
fn says(got: &[u8], prog: &[u8], flags: &mut Vec<Vec<u8>>, rest: &[u8]) -> bool {
    fn go(got: &[u8], flags: &mut Vec<Vec<u8>>, rest: &[u8]) -> bool {
        if flags.is_empty() {
            return got == rest;
        }
        for i in 0..flags.len() {
            if got.starts_with(&flags[i]) {
                let f = flags.remove(i);
                let ok = go(&got[f.len()..], flags, rest);
                flags.insert(i, f);
                if ok {
                    return true;
                }
            }
        }
        false
    }
    got.starts_with(prog) && go(&got[prog.len()..], flags, rest)
}

fn judge(cx: &mut Cx, si: &SessIn, prog: &[u8], flags: &mut Vec<Vec<u8>>) -> Result<(), String> {
    // what keeps -u and -g together from being refused is a group change only
    set_tpl(false, Some(b"u"));
    set_tpl(true, Some(b"%C"));
    let (_, p) = shown(cx, si)?;
    let mut rest = vec![];
    for a in &si.argv {
        rest.push(b' ');
        rest.extend(a);
    }
    check(says(&p, prog, flags, &rest), || {
        format!("the pair was shown {:?}; the command is {} with flags {:?} and command line {:?}", s(&p), s(prog), flags.iter().map(|f| s(f)).collect::<Vec<_>>(), s(&rest))
    })
}

fn group_only(si: &mut SessIn) {
    si.command_info.set("runas_uid", "1000").set("runas_gid", "0");
    si.settings.set("runas_group", "root");
}

fn flags(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    let n = cx.qt(17, 18);
    let prog: &str = *cx.pick(if cx.thorough { &["sudo", "sudoedit"][..] } else { &["sudo"][..] });
    si.settings.set("progname", prog);
    let mut set = vec![];
    let g = cx.flag(); // whether by group, or by user
    if g {
        group_only(&mut si);
        set.push(b" --group root".to_vec());
    }
    for (i, (k, f, val)) in FLAGS.iter().enumerate() {
        if *k == "runas_group" || i >= n {
            continue;
        }
        if cx.flag() {
            if *val {
                let v = if *k == "closefrom" { "11".to_string() } else { format!("v{}", i) };
                si.settings.set(k, &v);
                set.push(format!(" {} {}", f, v).into_bytes());
            } else {
                si.settings.set(k, "true");
                if !(*k == "sudoedit" && prog == "sudoedit") {
                    set.push(format!(" {}", f).into_bytes());
                }
            }
        } else if !val && i % 2 == 0 {
            si.settings.set(k, "false");
        }
    }
    cx.describe(|| format!("{} {:?}", prog, set.iter().map(|x| s(x)).collect::<Vec<_>>()));
    judge(cx, &si, prog.as_bytes(), &mut set)
}

/// Called as sudoedit, that flag goes without saying.
fn programs(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    let prog: &str = *cx.pick(&["sudo", "sudoedit", "sudoedi", "sudoeditx", "xsudoedit", "Sudoedit", "s", "%C", "a b"]);
    si.settings.set("progname", prog);
    let mut set = vec![];
    let edit: Option<&str> = *cx.pick(&[None, Some("true"), Some("false")]);
    si.settings.del("sudoedit");
    if let Some(v) = edit {
        si.settings.set("sudoedit", v);
        if v == "true" && prog != "sudoedit" {
            set.push(b" --edit".to_vec());
        }
    }
    let i = cx.input(FLAGS.len());
    let (k, f, val) = FLAGS[i];
    if k == "runas_group" {
        group_only(&mut si);
        set.push(b" --group root".to_vec());
    } else if i > 0 {
        si.settings.set(k, if val { "12" } else { "true" });
        set.push(if val { format!(" {} 12", f) } else { format!(" {}", f) }.into_bytes());
    }
    if cx.flag() {
        si.command_info.set("sudoedit", "true");
    }
    cx.describe(|| format!("{} {:?} {:?}", prog, edit, set.iter().map(|x| s(x)).collect::<Vec<_>>()));
    judge(cx, &si, prog.as_bytes(), &mut set)
}

fn flag_values(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    let vals: &[&[u8]] = &[b"x", b"", b"a b", b"\xff", b"x\xfe\xfdy", b"%u", b"--login", b"=", b"a=b", b"x\n", b"-1", b"#0", b"#1000", b"\xc3\xa9", b"\x1b[2J", b"root", b"true", b"false", b"0"];
    let with: Vec<usize> = (0..FLAGS.len()).filter(|i| FLAGS[*i].2).collect();
    let a = *cx.pick(&with);
    let b = cx.input(FLAGS.len());
    let mut set = vec![];
    let group = a == 2 || b == 2;
    if group {
        group_only(&mut si);
        si.settings.del("runas_group");
    }
    for i in [a, b] {
        if i == b && a == b && !set.is_empty() {
            break;
        }
        let (k, f, val) = FLAGS[i];
        if val {
            let v: &[u8] = if k == "closefrom" { *cx.pick(&[&b"3"[..], b"0", b"4294967295"]) } else { *cx.pick(vals) };
            if k == "runas_group" && v.is_empty() {
                return Ok(()); // no group named after all
            }
            si.settings.set(k, v);
            let mut t = format!(" {} ", f).into_bytes();
            t.extend(v);
            set.push(t);
        } else {
            si.settings.set(k, "true");
            set.push(format!(" {}", f).into_bytes());
        }
    }
    cx.describe(|| format!("{:?}", set.iter().map(|x| s(x)).collect::<Vec<_>>()));
    judge(cx, &si, b"sudo", &mut set)
}

fn argv(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    let el: &[&[u8]] = &[b"a", b"", b"b c", b"\xff", b"%u", b"-u", b"--", b"\n", b"'\"", b"\\", b"=", b"*"];
    let n = cx.qt(3, 4);
    si.argv = vec![];
    let len = cx.input(n + 1) + 1;
    for _ in 0..len {
        si.argv.push(cx.pick(el).to_vec());
    }
    cx.describe(|| format!("argv {:?}", si.argv.iter().map(|x| s(x)).collect::<Vec<_>>()));
    judge(cx, &si, b"sudo", &mut vec![])
}

fn constants20(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    let texts = crate::dict::texts();
    let mut set = vec![];
    let mut prog = b"sudo".to_vec();
    let (v, d);
    match cx.input(7) {
        0 => {
            v = cx.pick(texts).clone();
            if std::str::from_utf8(&v).is_err() {
                return Ok(());
            }
            si.settings.set("progname", &v);
            let (k, f, _) = *cx.pick(&[FLAGS[0], FLAGS[4]]);
            si.settings.set(k, "true");
            if k != "sudoedit" || v != b"sudoedit" {
                set.push(format!(" {}", f).into_bytes());
            }
            d = format!("program {}", s(&v));
            prog = v;
        }
        1 => {
            v = cx.pick(texts).clone();
            d = format!("argument {}", s(&v));
            let at = cx.input(3);
            if at == 0 {
                si.argv = vec![v];
            } else if at == 1 {
                si.argv = vec![b"cat".to_vec(), v.clone(), b"x".to_vec(), v];
            } else {
                si.argv = vec![b"cat".to_vec(), b"x".to_vec(), v];
            }
        }
        2 => {
            let with: Vec<usize> = (0..FLAGS.len()).filter(|i| FLAGS[*i].2 && FLAGS[*i].0 != "closefrom").collect();
            let (k, f, _) = FLAGS[*cx.pick(&with)];
            v = cx.pick(crate::dict::words()).clone();
            if k == "runas_group" {
                group_only(&mut si);
            }
            si.settings.set(k, &v);
            set.push([b" ", f.as_bytes(), b" ", &v].concat());
            d = format!("{} {}", f, s(&v));
        }
        3 => {
            let n = *cx.pick(&crate::dict::near(u64::MAX));
            si.settings.set("closefrom", n.to_string());
            set.push(format!(" --close-from {}", n).into_bytes());
            d = format!("--close-from {}", n);
        }
        4 => {
            let n = *cx.pick(&crate::dict::near(1 << 17)) as usize;
            si.argv = vec![b"cat".to_vec(), vec![b'a'; n], b"end".to_vec()];
            d = format!("an argument of {} bytes", n);
        }
        5 => {
            let n = *cx.pick(&crate::dict::near(1 << 16)) as usize;
            si.argv = (0..n.max(1)).map(|i| format!("a{}", i % 10).into_bytes()).collect();
            d = format!("{} arguments", n);
        }
        _ => {
            // other keys leave the command as it is
            let (l, k) = super::c15::key(cx.input(super::c15::keys()));
            let v = cx.pick(texts).clone();
            let shown = l == 0 && (k == "progname" || FLAGS.iter().any(|f| f.0 == k));
            let i = (0..super::c15::keys()).find(|i| super::c15::key(*i) == (l, k)).unwrap();
            if shown || super::c01::decides(l, k) || !super::c15::takes(i, &v) {
                return Ok(());
            }
            [&mut si.settings, &mut si.user_info, &mut si.command_info][l].set(k, &v);
            d = format!("list {} {}={}", l, k, s(&v));
        }
    }
    cx.describe(|| d.clone());
    judge(cx, &si, &prog, &mut set)
}

fn long(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    let mut ns = vec![1usize, 2, 10, 100, 1000, 10_000];
    let mut ls = vec![0usize, 1, 7, 100];
    for k in 2..=16 {
        ns.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    for k in 2..=20 {
        ls.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    let n = *cx.pick(&ns);
    let l = *cx.pick(&ls);
    // no more than the kernel takes for a command line
    if n * (l + 1) > cx.qt(1 << 21, 1 << 22) || (n > 1 && l > 131_072) {
        return Ok(());
    }
    si.argv = (0..n).map(|i| pattern(l, i).iter().map(|b| b % 200 + 33).collect()).collect();
    if cx.flag() {
        si.argv.push(vec![b'z'; 100_000]);
    }
    cx.describe(|| format!("{} elements of {} bytes", n, l));
    judge(cx, &si, b"sudo", &mut vec![])
}

/// Long values of every flag that takes one.
fn long_values(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    let with: Vec<usize> = (0..FLAGS.len()).filter(|i| FLAGS[*i].2 && FLAGS[*i].0 != "closefrom").collect();
    let (k, f, _) = FLAGS[*cx.pick(&with)];
    let mut ls = vec![100usize, 1000];
    for k in 2..=16 {
        ls.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    let l = *cx.pick(&ls);
    let v: Vec<u8> = pattern(l, 5).iter().map(|b| b % 90 + 33).collect();
    if k == "runas_group" {
        group_only(&mut si);
    }
    si.settings.set(k, &v);
    let mut t = format!(" {} ", f).into_bytes();
    t.extend(&v);
    cx.describe(|| format!("{} of {} bytes", f, l));
    judge(cx, &si, b"sudo", &mut vec![t])
}
