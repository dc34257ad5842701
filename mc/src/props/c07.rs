//! C07 (output), C08 (standard input) and C25 (resizes) of a session.

use super::util::*;

pub fn spec07() -> Spec {
    Spec { id: "C07", needs: "p", harnesses: h07, assumptions: &[ENV, ONE, "sudo stops the session at the first callback that refuses"] }
}
pub fn spec08() -> Spec {
    Spec { id: "C08", needs: "p", harnesses: h08, assumptions: &[ENV, ONE] }
}
pub fn spec25() -> Spec {
    Spec { id: "C25", needs: "p", harnesses: h25, assumptions: &[ENV, ONE, "sudo stops the session at the first callback that refuses"] }
}

fn h07(t: bool) -> Vec<Harness> {
    vec![
        Harness { name: "streams", what: "every sequence of chunks by stream and size up to the bound", bound: 0, run: streams, expect: &["accepted"] },
        Harness { name: "faults", what: "every combination of failing, short and interrupted writes up to the bound, with the pair leaving at any point", bound: if t { 4 } else { 2 }, run: out_faults, expect: &["accepted", "terminated"] },
        Harness { name: "errnos", what: "every write failing with every error number", bound: 1, run: out_errnos, expect: &["accepted", "terminated"] },
        Harness { name: "sizes", what: "every chunk size up to the bound", bound: 0, run: sizes, expect: &["accepted"] },
        Harness { name: "big", what: "chunks beyond the transport's buffer, with faults", bound: if t { 3 } else { 2 }, run: big, expect: &["accepted", "terminated"] },
        Harness { name: "hints", what: "all 32 combinations of logging hints", bound: 0, run: out_hints, expect: &["accepted"] },
        Harness { name: "exempt", what: "every exemption and sequence", bound: 0, run: out_exempt, expect: &["accepted"] },
        Harness { name: "powers", what: "chunk sizes around every power of two, on every stream", bound: 0, run: powers, expect: &["accepted"] },
        Harness { name: "texts", what: "every text of two bytes, whole and in two, every word over 14 symbols of terminal control up to the bound, and texts of special meaning alone, in pairs and within others", bound: 0, run: texts, expect: &["accepted"] },
        Harness { name: "constants", what: "chunks of every size and text the code under test is written with, alone and within others, on every stream", bound: 0, run: out_constants, expect: &["accepted"] },
        Harness { name: "repeats", what: "the same chunk again and again, alone, alternating with another, and across streams", bound: 0, run: repeats, expect: &["accepted"] },
        Harness { name: "long", what: "sessions of more than 65536 chunks and of more than 16 MiB, then one with a pair who leaves", bound: 0, run: out_long, expect: &["accepted", "terminated"] },
    ]
}

fn h08(t: bool) -> Vec<Harness> {
    vec![
        Harness { name: "paired", what: "all hints, sizes and earlier activity, faults up to the bound", bound: if t { 2 } else { 1 }, run: stdin_paired, expect: &["refused"] },
        Harness { name: "exempt", what: "every exemption with all hints", bound: 0, run: stdin_exempt, expect: &["accepted"] },
        Harness { name: "contents", what: "every text of up to two bytes, texts of special meaning, those the code under test is written with, and lengths around every power of two, in sessions of several kinds", bound: 0, run: stdin_contents, expect: &["refused", "accepted"] },
        Harness { name: "long", what: "more than 65536 pieces of standard input, alone and among output", bound: 0, run: stdin_long, expect: &["refused", "accepted"] },
    ]
}

fn h25(t: bool) -> Vec<Harness> {
    vec![
        Harness { name: "values", what: "all sizes up to the bound in both directions, and the extremes", bound: 0, run: win_values, expect: &["sent"] },
        Harness { name: "errnos", what: "every write failing with every error number", bound: 1, run: win_errnos, expect: &["sent", "terminated"] },
        Harness { name: "order", what: "resizes among output, all hints, faults up to the bound", bound: if t { 3 } else { 2 }, run: win_order, expect: &["sent", "terminated"] },
        Harness { name: "exempt", what: "every exemption", bound: 0, run: win_exempt, expect: &["accepted"] },
        Harness { name: "constants", what: "sizes of every number the code under test is written with, one after another, and those of sudo's own terminal", bound: 0, run: win_constants, expect: &["sent"] },
        Harness { name: "repeats", what: "the same size again and again, alone and returning every so often", bound: 0, run: win_repeats, expect: &["sent"] },
        Harness { name: "long", what: "more than 65536 resizes, alone and among output, then the pair leaves", bound: 0, run: win_long, expect: &["sent", "terminated"] },
    ]
}

fn no_tpl() {
    set_tpl(false, None);
    set_tpl(true, None);
}

#[derive(Clone, Debug)]
enum Step {
    Out(Stream, Vec<u8>),
    Win(u32, u32),
}

fn do_step(st: &Step) -> i32 {
    match st {
        Step::Out(x, b) => log(*x, b),
        Step::Win(l, c) => winsize(*l, *c),
    }
}

fn bytes_of(st: &Step) -> Vec<u8> {
    match st {
        Step::Out(Stream::TtyIn, _) => vec![],
        Step::Out(_, b) => b.clone(),
        Step::Win(l, c) => format!("\x1b[8;{};{}t", l, c).into_bytes(),
    }
}

/// Runs the steps up to the first refusal and compares what the pair got.
/// `reach`: the pair is there and nothing failed for good.
fn follow(base: Vec<u8>, steps: &[Step], mut reach: impl FnMut(usize) -> bool) -> Result<bool, String> {
    let mut want = base;
    for (i, st) in steps.iter().enumerate() {
        let can = reach(i);
        let r = do_step(st);
        let exp = bytes_of(st);
        hung()?;
        if r == 1 {
            want.extend(&exp);
            if w().peers[0].fd >= 0 {
                let got = to_peer(0);
                check(got == want, || diff_at("after an accepted chunk", &got, &want))?;
            } else {
                check(exp.is_empty(), || format!("step {}: accepted, but the pair is gone", i))?;
            }
        } else {
            check(r == 0, || format!("step {}: returned {}, which does not make sudo terminate the session", i, r))?;
            let splits = only_splits();
            check(!(can && splits), || format!("step {}: refused although nothing failed", i))?;
            if w().peers[0].fd >= 0 {
                let got = to_peer(0);
                let ok = got.starts_with(&want) && exp.starts_with(&got[want.len()..]);
                check(ok, || diff_at("after a refused chunk", &got, &want))?;
            }
            return Ok(false);
        }
    }
    // and that was all
    close();
    hung().map_err(|e| format!("closing: {}", e))?;
    if w().peers[0].fd >= 0 {
        let got = to_peer(0);
        check(got == want, || diff_at("after the end", &got, &want))?;
    }
    Ok(true)
}

fn diff_at(when: &str, got: &[u8], want: &[u8]) -> String {
    let k = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    format!("{}: the pair has {} bytes, expected {}; they differ at {}: {} / {}", when, got.len(), want.len(), k, s(&got[k.min(got.len())..(k + 20).min(got.len())]), s(&want[k.min(want.len())..(k + 20).min(want.len())]))
}

fn streams(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let si = SessIn::usual();
    let n = cx.qt(3, 4);
    let mut steps = vec![];
    for i in 0..n {
        let k = cx.input(6);
        if k == 0 {
            break;
        }
        if k == 5 {
            steps.push(Step::Win(24 + i as u32, 80));
            continue;
        }
        let st = [Stream::TtyOut, Stream::Stdout, Stream::Stderr, Stream::TtyIn][k - 1];
        let sz = *cx.pick(if n > 3 { &[1usize, 0, 256] } else { &[1usize, 0, 2, 256, 5000] });
        steps.push(Step::Out(st, pattern(sz, i)));
    }
    cx.describe(|| format!("{:?}", steps.iter().map(|x| match x { Step::Out(a, b) => format!("{:?}:{}", a, b.len()), w => format!("{:?}", w) }).collect::<Vec<_>>()));
    let base = pair_up(&si)?;
    cx.outcome("accepted");
    let all = follow(base, &steps, |_| true)?;
    check(all, || "refused".into())
}

fn out_faults(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let si = SessIn::usual();
    let steps = match cx.input(3) {
        0 => vec![Step::Out(Stream::TtyOut, b"abc".to_vec()), Step::Out(Stream::Stderr, b"defg".to_vec())],
        1 => vec![Step::Out(Stream::Stdout, b"%s\n\0\xff".to_vec()), Step::Out(Stream::TtyOut, b"x".to_vec()), Step::Out(Stream::Stdout, b"yz".to_vec())],
        _ => vec![Step::Out(Stream::Stderr, pattern(300, 1)), Step::Out(Stream::Stdout, vec![]), Step::Out(Stream::TtyOut, pattern(20, 2))],
    };
    // before which step the pair leaves or stops sending
    let leave = cx.input(steps.len() + 1);
    let how = if leave < steps.len() { cx.input(3) } else { 0 };
    let base = pair_up(&si)?;
    w().menu = Some(menu_session);
    let r = follow(base, &steps, |i| {
        if i == leave {
            match how {
                0 => {
                    w().peer_act(0, Act::Close, true);
                }
                1 => {
                    w().peer_act(0, Act::ShutWr, true);
                }
                _ => {
                    w().peer_act(0, Act::Send(b"chatter".to_vec()), true);
                }
            }
        }
        !(how == 0 && i >= leave)
    });
    w().menu = None;
    cx.describe(|| format!("leave {} how {} faults [{}]", leave, how, show_faults()));
    cx.outcome(if r? { "accepted" } else { "terminated" });
    Ok(())
}

fn sizes(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let si = SessIn::usual();
    let n = cx.input(cx.qt(2000, 20000));
    let st = *cx.pick(&[Stream::TtyOut, Stream::Stdout, Stream::Stderr]);
    cx.describe(|| format!("{:?} {}", st, n));
    let base = pair_up(&si)?;
    cx.outcome("accepted");
    let all = follow(base, &[Step::Out(st, pattern(n, 3)), Step::Out(Stream::TtyOut, b"tail".to_vec())], |_| true)?;
    check(all, || "refused".into())
}

/// Whatever the bytes say, they reach the pair.
fn texts(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let si = SessIn::usual();
    let st = *cx.pick(&[Stream::TtyOut, Stream::Stdout, Stream::Stderr]);
    let mut all: Vec<Vec<u8>> = vec![];
    let how = cx.input(4);
    match how {
        // two bytes, whole or one after the other
        0 | 1 => {
            let a = cx.input(256) as u8;
            for b in 0..=255u8 {
                if how == 0 {
                    all.push(vec![a, b]);
                } else {
                    all.push(vec![a]);
                    all.push(vec![b]);
                }
            }
        }
        2 => {
            const AL: &[u8] = b"\x1b[]c?;52J\r\n\x07a\xff";
            let n = cx.qt(4, 5);
            let first: Vec<u8> = (0..2).map(|_| AL[cx.input(AL.len())]).collect();
            for i in 0..AL.len().pow(n as u32 - 2) {
                let mut t = first.clone();
                let mut k = i;
                for _ in 2..n {
                    t.push(AL[k % AL.len()]);
                    k /= AL.len();
                }
                all.push(t);
            }
        }
        _ => {
            let a = cx.input(ODD.len());
            for b in ODD {
                all.push([ODD[a], b].concat());
                all.push([b"x", ODD[a], b"yz", b, b"\n"].concat());
                all.push(b.to_vec());
            }
        }
    }
    cx.describe(|| format!("{:?} {} from {:?}", st, how, s(&all[0])));
    let mut want = pair_up(&si)?;
    cx.outcome("accepted");
    let from = want.len();
    for t in &all {
        let r = log(st, t);
        check(r == 1, || format!("{:?} was refused", s(t)))?;
        want.extend(t);
        let got = to_peer(0);
        check(got.len() == want.len() && got.ends_with(t), || format!("{:?}: the pair got {:?}", s(t), s(&got[from.min(got.len())..])))?;
    }
    let got = to_peer(0);
    check(got == want, || diff_at("at last", &got, &want))
}

fn big(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let si = SessIn::usual();
    let n = *cx.pick(&[65535usize, 65536, 65537, 262_144, 1_048_576]);
    let st = *cx.pick(&[Stream::TtyOut, Stream::Stdout, Stream::Stderr]);
    let base = pair_up(&si)?;
    w().menu = Some(menu_session);
    let r = follow(base, &[Step::Out(st, pattern(n, 5)), Step::Out(st, pattern(10, 6))], |_| true);
    w().menu = None;
    cx.describe(|| format!("{:?} {} faults [{}]", st, n, show_faults()));
    cx.outcome(if r? { "accepted" } else { "terminated" });
    Ok(())
}

/// A long session, compared chunk by chunk; at its end the pair leaves.
fn long(base: Vec<u8>, n: usize, step: impl Fn(usize) -> Step) -> Result<(), String> {
    let mut at = to_peer(0).len();
    check(at == base.len(), || "something besides the prompt was sent".into())?;
    for i in 0..n {
        let st = step(i);
        let r = do_step(&st);
        fresh_limits();
        hung()?;
        check(r == 1, || format!("step {}: returned {} although nothing failed", i, r))?;
        w().drain_all();
        let exp = bytes_of(&st);
        let got = &w().peers[0].recvd[at..];
        check(got == &exp[..], || format!("step {}: {}", i, diff_at("after an accepted chunk", got, &exp)))?;
        at += exp.len();
    }
    Ok(())
}

fn pair_leaves() -> Result<(), String> {
    w().peer_act(0, Act::Close, true);
    for st in [Step::Out(Stream::TtyOut, b"x".to_vec()), Step::Win(1, 1), Step::Out(Stream::Stderr, pattern(10, 1))] {
        let r = do_step(&st);
        check(r == 0, || format!("{:?} returned {} after the pair had left", st, r))?;
    }
    Ok(())
}

const OUTS: [Stream; 3] = [Stream::TtyOut, Stream::Stdout, Stream::Stderr];

fn powers(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let si = SessIn::usual();
    let k = cx.input(cx.qt(23, 26));
    let d = cx.input(3);
    let st = *cx.pick(&OUTS);
    let n = (1usize << k) + d - 1;
    cx.describe(|| format!("{:?} {}", st, n));
    let base = pair_up(&si)?;
    cx.outcome("accepted");
    let all = follow(base, &[Step::Out(st, pattern(n, 3)), Step::Out(Stream::TtyOut, b"tail".to_vec())], |_| true)?;
    check(all, || "refused".into())
}

/// Output that repeats itself is still output.
fn repeats(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let si = SessIn::usual();
    let chunks: Vec<Vec<u8>> = vec![b"a".to_vec(), b"\n".to_vec(), b"\0".to_vec(), b"\x1b[2J".to_vec(), b"\r".to_vec(), b"\x07".to_vec(), b"\xff".to_vec(), b" ".to_vec(), vec![], pattern(300, 1), pattern(5000, 2)];
    let c = cx.pick(&chunks).clone();
    let st = *cx.pick(&OUTS);
    let n = cx.qt(70, 300);
    // another chunk after every so many of the same
    let every = *cx.pick(&[0usize, 1, 2, 3, 4, 5, 8, 16]);
    let other = *cx.pick(&OUTS);
    let what = cx.input(3);
    if every == 0 && what > 0 {
        return Ok(cx.outcome("accepted"));
    }
    cx.describe(|| format!("{:?} {} times {} bytes; after every {} {:?} way {}", st, n, c.len(), every, other, what));
    let base = pair_up(&si)?;
    let mut steps = vec![];
    for i in 0..n {
        steps.push(Step::Out(st, c.clone()));
        if every > 0 && i % every == every - 1 {
            steps.push(match what {
                0 => Step::Out(other, c.clone()),
                1 => Step::Out(other, b"other".to_vec()),
                _ => Step::Win(24, 80),
            });
        }
    }
    cx.outcome("accepted");
    let all = follow(base, &steps, |_| true)?;
    check(all, || "refused".into())
}

fn win_repeats(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let mut si = SessIn::usual();
    let (l, c) = *cx.pick(&[(24u32, 80u32), (0, 0), (1, 1), (50, 132), (u32::MAX, u32::MAX)]);
    if cx.flag() {
        si.user_info.set("lines", l.to_string()).set("cols", c.to_string());
    }
    let every = *cx.pick(&[0usize, 1, 2, 3, 4, 5, 8, 16]);
    let what = cx.input(4);
    cx.describe(|| format!("{}x{}; after every {} way {}", l, c, every, what));
    let base = pair_up(&si)?;
    let mut steps = vec![];
    for i in 0..cx.qt(70, 300) {
        steps.push(Step::Win(l, c));
        if every > 0 && i % every == every - 1 {
            steps.push(match what {
                0 => Step::Win(c, l),
                1 => Step::Win(l ^ 1, c),
                2 => Step::Out(Stream::TtyOut, b"x".to_vec()),
                _ => Step::Win(l, c ^ 1),
            });
        }
    }
    cx.outcome("sent");
    let all = follow(base, &steps, |_| true)?;
    check(all, || "refused".into())
}

fn out_constants(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let mut si = SessIn::usual();
    let st = *cx.pick(&OUTS);
    set_hints(&mut si, *cx.pick(&[31, 7]));
    let sizes = crate::dict::near(1 << 20);
    let texts = crate::dict::texts();
    let k = cx.input(sizes.len() + texts.len());
    let steps = if k < sizes.len() {
        let n = sizes[k] as usize;
        vec![pattern(n, 3), vec![b'a'; n], b"tail".to_vec()]
    } else {
        let t = &texts[k - sizes.len()];
        vec![t.clone(), t.clone(), [b"x", &t[..]].concat(), [&t[..], b"\n"].concat(), [b"\r\n", &t[..], b"\r\n"].concat(), [&t[..], t].concat()]
    };
    cx.describe(|| format!("{:?} {} bytes {:?}", st, steps[0].len(), s(&steps[0][..steps[0].len().min(40)])));
    let base = pair_up(&si)?;
    cx.outcome("accepted");
    let steps: Vec<Step> = steps.into_iter().map(|b| Step::Out(st, b)).collect();
    let all = follow(base, &steps, |_| true)?;
    check(all, || "refused".into())
}

/// Whatever standard input says, and however much.
fn stdin_contents(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let mut si = SessIn::usual();
    let kind = cx.input(5);
    let why = match kind {
        0 => "",
        1 => {
            set_hints(&mut si, 0b00111);
            ""
        }
        2 => {
            si.command_info.set("runas_uid", "1000");
            si.settings.set("runas_group", "root");
            ""
        }
        k => make_exempt(k - 3, &mut si),
    };
    let exempt = kind > 2;
    let texts = crate::dict::texts();
    let how = cx.input(4);
    let mut all: Vec<Vec<u8>> = vec![];
    match how {
        0 => {
            let a = cx.input(256) as u8;
            all.push(vec![a]);
            all.extend((0..=255u8).map(|b| vec![a, b]));
        }
        1 => {
            let a = cx.input(ODD.len());
            all.push(ODD[a].to_vec());
            for b in ODD {
                all.push([ODD[a], b].concat());
            }
        }
        2 => {
            let t = cx.pick(texts);
            all.extend([t.clone(), [&t[..], b"\n"].concat(), [b"\n", &t[..]].concat(), [&t[..], t].concat()]);
        }
        _ => {
            let k = cx.input(21);
            for n in [(1usize << k) - 1, 1 << k, (1 << k) + 1] {
                all.extend([pattern(n, 1), vec![b'\n'; n], vec![0; n]]);
            }
            if k == 0 {
                all.extend(crate::dict::near(1 << 20).iter().map(|n| pattern(*n as usize, 2)));
            }
        }
    }
    cx.describe(|| format!("session {} {} contents {} from {:?}", kind, why, how, s(&all[0])));
    let base = if exempt {
        answer(b"n");
        let r = open(&si);
        check(r == 1, || format!("exempt session ({}): open returned {}", why, r))?;
        vec![]
    } else {
        pair_up(&si)?
    };
    cx.outcome(if exempt { "accepted" } else { "refused" });
    for t in &all {
        let r = log(Stream::Stdin, t);
        fresh_limits();
        hung()?;
        check(r == exempt as i32, || format!("{} bytes of standard input, {:?}: returned {}", t.len(), s(t), r))?;
    }
    if exempt {
        return nothing_sent();
    }
    let got = to_peer(0);
    check(got == base, || diff_at("standard input reached the pair", &got, &base))
}

fn win_constants(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let mut si = SessIn::usual();
    let v = crate::dict::near(u32::MAX as u64);
    let pick = |cx: &mut Cx| *cx.pick(&v) as u32;
    let (l, c) = (pick(cx), pick(cx));
    // what sudo said of the terminal before
    si.user_info.set("lines", l.to_string()).set("cols", c.to_string());
    cx.describe(|| format!("{} x {}", l, c));
    let base = pair_up(&si)?;
    cx.outcome("sent");
    let mut steps = vec![];
    for (a, b) in [(l, c), (l, c), (c, l), (24, 80), (l, 80), (24, c), (24, 80), (l, c), (l.wrapping_add(1), c), (l, c.wrapping_add(1))] {
        steps.push(Step::Win(a, b));
    }
    let all = follow(base, &steps, |_| true)?;
    check(all, || "refused".into())
}

fn out_long(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let si = SessIn::usual();
    let kind = cx.input(5);
    let n = [70_000, 70_000, 70_000, 70_000, 300][kind] * cx.qt(1, 4);
    cx.describe(|| format!("kind {} {} steps", kind, n));
    let base = pair_up(&si)?;
    cx.outcome("accepted");
    long(base, n, |i| match kind {
        4 => Step::Out(OUTS[i % 3], pattern(65_536, i)),
        3 if i % 5 == 4 => Step::Win(i as u32, 80),
        3 => Step::Out([Stream::TtyOut, Stream::Stdout, Stream::TtyIn, Stream::Stderr][i % 4], pattern(i % 7, i)),
        k => Step::Out(OUTS[k], pattern(1, i)),
    })?;
    cx.outcome("terminated");
    pair_leaves()
}

fn stdin_long(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let mut si = SessIn::usual();
    let exempt = cx.flag();
    let among = cx.flag();
    let n = 70_000 * cx.qt(1, 4);
    cx.describe(|| format!("exempt {} among output {} {} pieces", exempt, among, n));
    if exempt {
        make_exempt(0, &mut si);
        let r = open(&si);
        check(r == 1, || format!("exempt session: open returned {}", r))?;
    } else {
        pair_up(&si)?;
    }
    cx.outcome(if exempt { "accepted" } else { "refused" });
    for i in 0..n {
        if among {
            let r = log(OUTS[i % 3], b"o");
            check(r == 1, || format!("piece {} of output: returned {}", i, r))?;
            w().drain_all();
        }
        let r = log(Stream::Stdin, &pattern(i % 3, i));
        fresh_limits();
        check(r == exempt as i32, || format!("piece {} of standard input: returned {}", i, r))?;
    }
    Ok(())
}

fn win_long(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let si = SessIn::usual();
    let kind = cx.input(3);
    let n = 70_000 * cx.qt(1, 4);
    cx.describe(|| format!("kind {} {} steps", kind, n));
    let base = pair_up(&si)?;
    cx.outcome("sent");
    long(base, n, |i| match kind {
        0 => Step::Win(24, 80),
        1 => Step::Win(i as u32, (n - i) as u32),
        _ if i % 2 == 0 => Step::Out(OUTS[i / 2 % 3], b"o".to_vec()),
        _ => Step::Win(i as u32, 1),
    })?;
    cx.outcome("terminated");
    pair_leaves()
}

fn out_hints(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let mut si = SessIn::usual();
    let h = cx.input(32);
    if !out_hint(h) {
        return Ok(());
    }
    set_hints(&mut si, h);
    if cx.flag() {
        // off by absence instead
        for (i, k) in HINTS.iter().enumerate() {
            if h >> i & 1 == 0 {
                si.command_info.del(k);
            }
        }
    }
    let mut steps = vec![];
    for i in 0..2 {
        let k = cx.input(4);
        steps.push(match k {
            0 => Step::Out(Stream::TtyOut, pattern(5, i)),
            1 => Step::Out(Stream::Stdout, pattern(6, i)),
            2 => Step::Out(Stream::Stderr, pattern(7, i)),
            _ => Step::Win(1, 2),
        });
    }
    cx.describe(|| format!("hints {:05b} {:?}", h, steps));
    let base = pair_up(&si)?;
    cx.outcome("accepted");
    let all = follow(base, &steps, |_| true)?;
    check(all, || "refused".into())
}

fn exempt_session(cx: &mut Cx, hints: bool) -> Result<&'static str, String> {
    no_tpl();
    let mut si = SessIn::usual();
    if hints {
        let h = cx.input(32);
        if !out_hint(h) {
            return Ok("");
        }
        set_hints(&mut si, h);
    }
    let k = cx.input(EXEMPTIONS);
    let why = make_exempt(k, &mut si);
    answer(b"n");
    let r = open(&si);
    check(r == 1, || format!("exempt session ({}) refused: open returned {}", why, r))?;
    Ok(why)
}

fn nothing_sent() -> Result<(), String> {
    untouched()?;
    let sent = w().evs.iter().any(|e| is_write(&e.op) && e.op.cls != Cls::Syslog);
    check(!sent, || "an exempt session wrote something somewhere".into())
}

fn out_exempt(cx: &mut Cx) -> Result<(), String> {
    let why = exempt_session(cx, false)?;
    let n = cx.qt(2, 3);
    for i in 0..n {
        let k = cx.input(6);
        if k == 0 {
            break;
        }
        let r = match k {
            5 => winsize(3, 4),
            k => log([Stream::TtyOut, Stream::Stdout, Stream::Stderr, Stream::TtyIn][k - 1], &pattern(10 * i, i)),
        };
        check(r == 1, || format!("exempt ({}): a callback returned {}", why, r))?;
    }
    cx.outcome("accepted");
    cx.describe(|| why.to_string());
    nothing_sent()
}

// ------------------------------------------------------------------ C08

fn stdin_paired(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let mut si = SessIn::usual();
    let h = cx.input(32);
    if !out_hint(h) {
        return Ok(());
    }
    set_hints(&mut si, h);
    let kind = cx.input(2);
    if kind == 1 {
        si.command_info.set("runas_uid", "1000");
        si.settings.set("runas_group", "root");
    }
    let base = pair_up(&si)?;
    w().menu = Some(menu_session);
    let mut want = base;
    // what happened before; a resize or output refused for a fault ends the
    // session anyway, but standard input must not slip through then either
    let n = cx.qt(2, 3);
    let mut d = vec![];
    for i in 0..n {
        match cx.input(5) {
            0 => break,
            1 => {
                let r = log(Stream::TtyOut, b"out");
                if r == 1 {
                    want.extend_from_slice(b"out");
                }
                d.push(format!("out={}", r));
            }
            2 => {
                let r = log(Stream::TtyIn, b"typed");
                d.push(format!("ttyin={}", r));
            }
            3 => {
                w().peer_act(0, Act::Close, true);
                d.push("pair leaves".into());
            }
            _ => {
                let r = log(Stream::Stdin, &pattern(i + 1, i));
                check(r == 0, || format!("redirected standard input: returned {}, which does not make sudo terminate the session", r))?;
                d.push("stdin".into());
            }
        }
    }
    let b = match cx.input(4) {
        0 => b"x".to_vec(),
        1 => vec![],
        2 => b"y\n".to_vec(),
        _ => pattern(70_000, 1),
    };
    let r = log(Stream::Stdin, &b);
    w().menu = None;
    cx.describe(|| format!("hints {:05b} kind {} before {:?} stdin {} bytes faults [{}]", h, kind, d, b.len(), show_faults()));
    cx.outcome("refused");
    check(r == 0, || format!("redirected standard input: returned {}, which does not make sudo terminate the session", r))?;
    if w().peers[0].fd >= 0 && w().faults_taken.is_empty() {
        let got = to_peer(0);
        check(got == want, || diff_at("standard input reached the pair", &got, &want))?;
    }
    Ok(())
}

fn stdin_exempt(cx: &mut Cx) -> Result<(), String> {
    let why = exempt_session(cx, true)?;
    if why.is_empty() {
        return Ok(());
    }
    let mut d = vec![];
    for i in 0..3 {
        let k = cx.input(4);
        if k == 0 {
            break;
        }
        let r = match k {
            1 => log(Stream::Stdin, &pattern(i * 40, i)),
            2 => log(Stream::TtyOut, b"o"),
            _ => winsize(1, 1),
        };
        d.push(k);
        check(r == 1, || format!("exempt ({}): {:?} returned {}", why, d, r))?;
    }
    let r = log(Stream::Stdin, b"data");
    check(r == 1, || format!("exempt ({}): standard input returned {}", why, r))?;
    cx.outcome("accepted");
    cx.describe(|| format!("{} {:?}", why, d));
    nothing_sent()
}

// ------------------------------------------------------------------ C25

fn win_values(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let si = SessIn::usual();
    let n = cx.qt(130, 400);
    let ex = [255u32, 256, 999, 1000, 9999, 32767, 32768, 65535, 65536, 99999, 1 << 24, i32::MAX as u32, 1 << 31, u32::MAX - 1, u32::MAX];
    let v = |k: usize| if k < n { k as u32 } else { ex[k - n] };
    let (l, c) = (v(cx.input(n + ex.len())), v(cx.input(n + ex.len())));
    cx.describe(|| format!("{} x {}", l, c));
    let base = pair_up(&si)?;
    cx.outcome("sent");
    let all = follow(base, &[Step::Win(l, c), Step::Win(c, l)], |_| true)?;
    check(all, || "refused".into())
}

fn win_order(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let mut si = SessIn::usual();
    let h = if w().errno == 0 { cx.input(32) } else { 31 };
    if !out_hint(h) {
        return Ok(());
    }
    set_hints(&mut si, h);
    let steps = match cx.input(4) {
        0 => vec![Step::Win(50, 132)],
        1 => vec![Step::Out(Stream::TtyOut, b"a".to_vec()), Step::Win(1, 2), Step::Out(Stream::TtyOut, b"b".to_vec())],
        2 => vec![Step::Win(3, 4), Step::Win(3, 4)],
        _ => vec![Step::Out(Stream::Stderr, b"\x1b[".to_vec()), Step::Win(0, u32::MAX)],
    };
    let leave = cx.input(steps.len() + 1);
    let base = pair_up(&si)?;
    w().menu = Some(menu_session);
    let r = follow(base, &steps, |i| {
        if i == leave {
            w().peer_act(0, Act::Close, true);
        }
        i < leave
    });
    w().menu = None;
    cx.describe(|| format!("hints {:05b} {:?} leave {} faults [{}]", h, steps, leave, show_faults()));
    cx.outcome(if r? { "sent" } else { "terminated" });
    Ok(())
}

fn win_exempt(cx: &mut Cx) -> Result<(), String> {
    let why = exempt_session(cx, true)?;
    if why.is_empty() {
        return Ok(());
    }
    for _ in 0..2 {
        let (l, c) = *cx.pick(&[(24, 80), (0, 0), (u32::MAX, u32::MAX)]);
        let r = winsize(l, c);
        check(r == 1, || format!("exempt ({}): resize returned {}", why, r))?;
    }
    cx.outcome("accepted");
    cx.describe(|| why.to_string());
    nothing_sent()
}

fn out_errnos(cx: &mut Cx) -> Result<(), String> {
    each_errno(cx);
    out_faults(cx)
}

fn win_errnos(cx: &mut Cx) -> Result<(), String> {
    each_errno(cx);
    win_order(cx)
}
