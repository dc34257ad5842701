//! C13: plugin and environment live exactly from open to close.

use super::drv::*;
use super::util::*;
use crate::abi::*;

pub fn spec() -> Spec {
    Spec {
        id: "C13",
        needs: "b",
        harnesses,
        assumptions: &[ONE, "plugins written with the library's macro (the probes in /verif/probe) stand for all such plugins", "an open while an earlier session was not closed is judged for its own session; whether it or the missing close ends the earlier one is left open"],
    }
}

fn harnesses(t: bool) -> Vec<Harness> {
    let _ = t;
    vec![
        Harness { name: "histories", what: "all histories of opens of every outcome, callbacks and closes up to the bound", bound: 0, run: histories, expect: &["served", "refused", "closed"] },
        Harness { name: "two", what: "all histories of two plugins of one library", bound: 0, run: two, expect: &["served", "refused", "closed"] },
        Harness { name: "codes", what: "exit codes handed to close", bound: 0, run: codes, expect: &["closed"] },
        Harness { name: "long", what: "more than a thousand sessions one after another in one process, in every pattern of outcomes of two", bound: 0, run: long, expect: &["served", "refused", "closed"] },
    ]
}

#[derive(Clone, Default)]
struct Model {
    /// the live instance and its session's tag
    live: Option<(u64, i64)>,
    /// the environment a version display would use
    env: Option<i64>,
    /// a session that an early failing open may or may not have ended
    maybe: bool,
    opened: Vec<u64>,
    dropped: Vec<u64>,
    told: Vec<u64>,
}

fn drops(m: &mut Model, recs: &[Rec]) -> Result<(), String> {
    for r in recs.iter().filter(|r| r.method == DROP) {
        check(!m.dropped.contains(&r.inst), || format!("instance {} was dropped twice", r.inst))?;
        check(m.opened.contains(&r.inst), || format!("instance {} was dropped but never made", r.inst))?;
        m.dropped.push(r.inst);
    }
    Ok(())
}

const OPENS: usize = 7;
const OPS: usize = 13;

/// One step on plugin `k`.
fn step(cx: &mut Cx, m: &mut Model, k: usize, op: usize, i: usize) -> Result<(), String> {
    let t = plugin(k);
    drv().code = [0; 10];
    take();
    if op < OPENS {
        let tag = 1000 + i as i64;
        let mut si = SessIn::usual();
        si.options.set("tag", tag.to_string());
        si.command_info.set("iolog_stdin", "true");
        match op {
            1 => drv().code[0] = code(1, 2, 1, 0),
            2 => drv().code[0] = 2,
            3 => {
                si.user_info.del("pid");
            }
            4 => si.version = mkversion(1, 8),
            5 => {
                si.command_info.del("command");
            }
            // another session altogether: output is not to be logged
            6 => {
                for h in HINTS {
                    si.command_info.set(h, "false");
                }
                si.argv = vec![];
                si.null_env = true;
            }
            _ => {}
        }
        let r = open_at(t, &si);
        let recs = take();
        let want = if matches!(op, 0 | 5 | 6) { 1 } else { -1 };
        check(r == want, || format!("open returned {}, not {}", r, want))?;
        let os: Vec<&Rec> = recs.iter().filter(|r| r.method == OPEN).collect();
        let reaches = matches!(op, 0 | 1 | 2 | 6);
        check(os.len() == reaches as usize, || format!("the plugin's open ran {} times", os.len()))?;
        check(recs.iter().all(|r| matches!(r.method, OPEN | DROP | CLOSE)), || format!("open made the calls {}", show(&recs)))?;
        if reaches {
            check(os[0].a == tag, || format!("open saw the session {} and not its own {}", os[0].a, tag))?;
        }
        if let Some((old, _)) = m.live {
            // a close that never came may be made up for, once
            let c: Vec<&Rec> = recs.iter().filter(|r| r.method == CLOSE).collect();
            check(c.len() <= 1 && c.iter().all(|c| c.inst == old), || format!("open made the calls {}", show(&recs)))?;
        } else {
            check(recs.iter().all(|r| r.method == OPEN), || format!("open made the calls {}", show(&recs)))?;
        }
        drops(m, &recs)?;
        if matches!(op, 0 | 6) {
            m.opened.push(os[0].inst);
        }
        match op {
            0 | 6 => {
                m.live = Some((os[0].inst, tag));
                m.env = Some(tag);
                m.maybe = false;
                for o in m.opened.iter() {
                    check(*o == os[0].inst || m.dropped.contains(o), || format!("instance {} still exists next to {}", o, os[0].inst))?;
                }
            }
            1 | 2 | 5 => {
                m.live = None;
                m.env = Some(tag);
                m.maybe = false;
                check(m.dropped.len() == m.opened.len(), || "an earlier instance still exists".into())?;
            }
            _ => {
                if m.live.is_some() {
                    m.maybe = true;
                }
            }
        }
        // what is visible is what this open was given
        cx.outcome(if r == 1 { "opened" } else { "refused" });
        return Ok(());
    }
    match op {
        7 | 8 | 9 => {
            let (r, me, hint) = match op {
                7 => (log_at(t, Stream::TtyOut, &[i as u8, 7]), 4, true),
                8 => (log_at(t, Stream::Stdin, &[i as u8, 8]), 5, true),
                _ => (winsize_at(t, i as u32, 9), WINSIZE, false),
            };
            let recs = take();
            match m.live {
                Some((inst, tag)) => {
                    if m.maybe && r == 0 && recs.is_empty() {
                        cx.outcome("refused");
                        return Ok(());
                    }
                    // op 6 opened a session whose hints are off
                    let off = hint && k == 0 && off_hints(m, tag);
                    check(r == 1, || format!("{} returned {}", METHODS[me as usize], r))?;
                    if off {
                        check(recs.is_empty(), || format!("it made the calls {}", show(&recs)))?;
                    } else {
                        check(recs.len() == 1 && recs[0].inst == inst && recs[0].method == me, || format!("it made the calls {}, not {} of #{}", show(&recs), METHODS[me as usize], inst))?;
                        if me != WINSIZE {
                            check(recs[0].a == tag && recs[0].data[0] == i as u8, || "with another session's facts".into())?;
                        }
                    }
                    cx.outcome("served");
                }
                None => {
                    check(r == 0, || format!("{} without a session returned {}", METHODS[me as usize], r))?;
                    check(recs.is_empty(), || format!("it made the calls {}", show(&recs)))?;
                    cx.outcome("refused");
                }
            }
        }
        10 => {
            let r = version_at(t, 1);
            let recs = take();
            match m.env {
                Some(tag) => {
                    if m.maybe && r == -1 && recs.is_empty() {
                        return Ok(());
                    }
                    // without a live session it may as well be refused,
                    // except that `sudo -V` relies on it
                    check(r == 1 || (m.live.is_none() && r == -1 && !no_command(m, tag)), || format!("show_version returned {}", r))?;
                    if r == 1 {
                        check(recs.len() == 1 && recs[0].method == VERSION && recs[0].b == tag && recs[0].a == 1, || format!("it made the calls {}", show(&recs)))?;
                    }
                    cx.outcome("served");
                }
                None => {
                    check(r == -1, || format!("show_version without an environment returned {}", r))?;
                    check(recs.is_empty(), || format!("it made the calls {}", show(&recs)))?;
                    cx.outcome("refused");
                }
            }
        }
        _ => {
            if op == 12 {
                drv().code[CLOSE as usize] = 3;
            }
            let (a, b) = (i as i32 * 256, i as i32 + 40);
            close_at(t, a, b);
            let recs = take();
            if let Some((inst, tag)) = m.live {
                if !(m.maybe && recs.is_empty()) {
                    check(recs.len() == 2 && recs[0].method == CLOSE && recs[1].method == DROP && recs[0].inst == inst && recs[1].inst == inst, || format!("close made the calls {}", show(&recs)))?;
                    check(recs[0].a == a as i64 && recs[0].b == b as i64, || format!("told of close({}, {}), not ({}, {})", recs[0].a, recs[0].b, a, b))?;
                    check(recs[1].a == tag, || "its environment was gone when it was dropped".into())?;
                }
                m.told.push(inst);
            } else {
                check(recs.is_empty(), || format!("close without a session made the calls {}", show(&recs)))?;
            }
            drops(m, &recs)?;
            m.live = None;
            m.env = None;
            m.maybe = false;
            check(m.dropped.len() == m.opened.len(), || "an instance survived the close".into())?;
            cx.outcome("closed");
        }
    }
    Ok(())
}

static mut OFF: Vec<i64> = vec![];
static mut NOCMD: Vec<i64> = vec![];
#[allow(static_mut_refs)]
fn off_hints(_: &Model, tag: i64) -> bool {
    unsafe { OFF.contains(&tag) }
}
#[allow(static_mut_refs)]
fn no_command(_: &Model, tag: i64) -> bool {
    unsafe { NOCMD.contains(&tag) }
}
#[allow(static_mut_refs)]
fn note(op: usize, i: usize) {
    unsafe {
        if op == 6 {
            OFF.push(1000 + i as i64)
        }
        if op == 5 {
            NOCMD.push(1000 + i as i64)
        }
    }
}
#[allow(static_mut_refs)]
fn fresh() {
    unsafe {
        OFF.clear();
        NOCMD.clear();
    }
}

const OPNAMES: [&str; OPS] = ["open", "open fails", "open panics", "open without pid", "open 1.8", "open without command", "open unlogged", "ttyout", "stdin", "winsize", "version", "close", "close panics"];

fn histories(cx: &mut Cx) -> Result<(), String> {
    start(false);
    fresh();
    let k = cx.input(2);
    let n = cx.qt(5, 6);
    let mut m = Model::default();
    let mut d = vec![];
    let mut res = Ok(());
    for i in 0..n {
        let op = cx.input(OPS);
        note(op, i);
        d.push(OPNAMES[op]);
        res = step(cx, &mut m, k, op, i);
        if res.is_err() {
            break;
        }
    }
    if res.is_ok() {
        res = step(cx, &mut m, k, 11, n);
    }
    cx.describe(|| format!("{}: {}", NAMES[k], d.join(", ")));
    res
}

fn two(cx: &mut Cx) -> Result<(), String> {
    start(false);
    fresh();
    const SOME: [usize; 6] = [0, 1, 5, 7, 10, 11];
    let n = cx.qt(5, 6);
    let mut m = [Model::default(), Model::default()];
    let mut d = vec![];
    let mut res = Ok(());
    for i in 0..n {
        let k = cx.input(2);
        let op = SOME[cx.input(6)];
        note(op, i);
        d.push(format!("{} of {}", OPNAMES[op], NAMES[k]));
        res = step(cx, &mut m[k], k, op, i);
        if res.is_err() {
            break;
        }
    }
    for k in 0..2 {
        if res.is_ok() {
            res = step(cx, &mut m[k], k, 11, n);
        }
    }
    cx.describe(|| d.join(", "));
    res
}

fn codes(cx: &mut Cx) -> Result<(), String> {
    start(false);
    const V: [i32; 9] = [0, 1, -1, 127, 255, 256, 65280, i32::MAX, i32::MIN];
    let k = cx.input(2);
    let (a, b) = (*cx.pick(&V), *cx.pick(&V));
    let r = open_at(plugin(k), &SessIn::usual());
    check(r == 1, || format!("open returned {}", r))?;
    take();
    close_at(plugin(k), a, b);
    let recs = take();
    cx.describe(|| format!("{} close({}, {})", NAMES[k], a, b));
    cx.outcome("closed");
    check(recs.len() == 2 && recs[0].method == CLOSE && recs[0].a == a as i64 && recs[0].b == b as i64, || format!("close made the calls {}", show(&recs)))
}

fn long(cx: &mut Cx) -> Result<(), String> {
    start(false);
    let k = cx.input(2);
    fresh();
    let ops = [cx.input(OPENS), cx.input(OPENS)];
    let ends = *cx.pick(&[11, 12]);
    let n = cx.qt(1_100, 4_000);
    cx.describe(|| format!("{} {} sessions, opens {:?}", NAMES[k], n, ops));
    let mut m = Model::default();
    for i in 0..n {
        let at = |e: String| format!("session {}: {}", i, e);
        fresh();
        for op in [ops[i & 1], 7, 10, ends] {
            note(op, i);
            step(cx, &mut m, k, op, i).map_err(at)?;
        }
        // what is over need not be looked at again
        if m.dropped.len() == m.opened.len() {
            m.opened.clear();
            m.dropped.clear();
            m.told.clear();
        }
        w().evs.clear();
        w().printed.clear();
        fresh_limits();
    }
    Ok(())
}
