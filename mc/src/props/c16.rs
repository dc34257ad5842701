//! C16: unsupported API versions are refused, supported ones accepted.

use super::drv::*;
use super::util::*;
use crate::abi::*;

pub fn spec() -> Spec {
    Spec { id: "C16", needs: "pb", harnesses, assumptions: &[ONE] }
}

fn harnesses(_: bool) -> Vec<Harness> {
    vec![
        Harness { name: "minors", what: "every minor version of the first majors", bound: 0, run: minors, expect: &["accepted", "refused"] },
        Harness { name: "majors", what: "every major version with boundary minors", bound: 0, run: majors, expect: &["accepted", "refused"] },
        Harness { name: "plugin", what: "the pair plugin with every major and boundary minors, exempt or not", bound: 0, run: plugin_too, expect: &["accepted", "refused"] },
        Harness { name: "packing", what: "packing and unpacking of all 2^32 versions", bound: 0, run: packing, expect: &["inverse"] },
        Harness { name: "pairs", what: "every version boundary after another, in one process", bound: 0, run: pairs, expect: &["accepted", "refused"] },
    ]
}

fn one(cx: &mut Cx, k: usize, si: &mut SessIn, major: u32, minor: u32) -> Result<(), String> {
    let v = major << 16 | minor;
    si.version = v;
    let wd = w();
    wd.printed.clear();
    wd.evs.clear();
    wd.steps = 0;
    wd.printf_calls = 0;
    take();
    let ok = major > 1 || (major == 1 && minor >= 9);
    let r = open_at(plugin(k), si);
    let recs = take();
    cx.outcome(if ok { "accepted" } else { "refused" });
    if ok {
        check(r == 1, || format!("version {}.{} was refused: {}", major, minor, r))?;
        check(recs.iter().filter(|r| r.method == OPEN).count() == 1, || "the plugin did not run".into())?;
        let got = unsafe { (api().env_version)() };
        check(got == v as i64, || format!("the plugin was told {:#x} for {}.{}", got, major, minor))?;
        let d = &recs.iter().find(|r| r.method == OPEN).unwrap().data;
        if !d.is_empty() {
            let want = format!("\napi_version={}.{}\n", major, minor).into_bytes();
            check(d.windows(want.len()).any(|x| x == &want[..]), || format!("the plugin was not told {}.{}", major, minor))?;
        }
        check(printed(CONV_ERROR).is_empty(), || "an error was reported".into())?;
    } else {
        check(r == -1, || format!("version {}.{} was not refused: {}", major, minor, r))?;
        check(recs.iter().all(|r| r.method == DROP), || format!("plugin code ran: {}", show(&recs)))?;
        let p = String::from_utf8_lossy(&printed(CONV_ERROR)).into_owned();
        let has = |n: &str| {
            // as a number of its own
            p.match_indices(n).any(|(i, _)| !p[..i].ends_with(|c: char| c.is_ascii_digit() || c == '.') && !p[i + n.len()..].starts_with(|c: char| c.is_ascii_digit()))
        };
        check(has(&format!("{}.{}", major, minor)) && has("1.9"), || format!("version {}.{}: the message {:?} does not name both versions", major, minor, p))?;
    }
    close_at(plugin(k), 0, 0);
    Ok(())
}

fn lean() -> SessIn {
    let mut si = SessIn::usual();
    si.settings.0.truncate(3);
    si
}

fn minors(cx: &mut Cx) -> Result<(), String> {
    start(true);
    let k = cx.input(2);
    let major = cx.input(cx.qt(3, 6)) as u32;
    let block = cx.input(64) as u32;
    let mut si = lean();
    cx.describe(|| format!("{} {}.{}..", NAMES[k], major, block * 1024));
    for minor in block * 1024..(block + 1) * 1024 {
        one(cx, k, &mut si, major, minor)?;
    }
    cx.count("versions", 1024);
    Ok(())
}

const MINORS: [u32; 14] = [0, 1, 8, 9, 10, 16, 17, 18, 255, 256, 32767, 32768, 65534, 65535];

fn majors(cx: &mut Cx) -> Result<(), String> {
    start(cx.thorough);
    let k = cx.input(2);
    let minor = if cx.thorough { cx.input(256) as u32 * 257 } else { *cx.pick(&MINORS) };
    let block = cx.input(64) as u32;
    let mut si = lean();
    cx.describe(|| format!("{} {}...{}", NAMES[k], block * 1024, minor));
    for major in block * 1024..(block + 1) * 1024 {
        one(cx, k, &mut si, major, minor)?;
    }
    cx.count("versions", 1024);
    Ok(())
}

fn plugin_too(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let mut si = SessIn::usual();
    let exempt = cx.input(EXEMPTIONS + 1);
    if exempt > 0 {
        make_exempt(exempt - 1, &mut si);
    }
    let minor = *cx.pick(&MINORS);
    let block = cx.input(64) as u32;
    cx.describe(|| format!("{}...{} exemption {}", block * 1024, minor, exempt));
    let mut majors: Vec<u32> = vec![block * 1024, block * 1024 + 1, block * 1024 + 2, block * 1024 + 1023];
    if cx.thorough && exempt > 0 {
        majors = (block * 1024..(block + 1) * 1024).collect();
    }
    for major in majors {
        let wd = w();
        wd.printed.clear();
        wd.evs.clear();
        wd.bound.clear();
        wd.accepted.clear();
        wd.peers.clear();
        wd.waited = 0;
        wd.steps = 0;
        si.version = major << 16 | minor;
        let ok = major > 1 || (major == 1 && minor >= 9);
        if ok {
            answer(b"y");
        }
        let r = open(&si);
        cx.outcome(if ok { "accepted" } else { "refused" });
        check(r == if ok { 1 } else { -1 }, || format!("version {}.{}: open returned {}", major, minor, r))?;
        if ok {
            check((wd.accepted.len() == 1) == (exempt == 0), || format!("version {}.{}: {} pairs were asked", major, minor, wd.accepted.len()))?;
            close();
            wd.plan = Plan::default();
        } else {
            no_socket()?;
            let p = String::from_utf8_lossy(&printed(CONV_ERROR)).into_owned();
            check(p.contains(&format!("{}.{}", major, minor)) && p.contains("1.9"), || format!("version {}.{}: the message {:?} does not name both versions", major, minor, p))?;
        }
    }
    Ok(())
}

fn packing(cx: &mut Cx) -> Result<(), String> {
    let block = cx.input(256) as u32;
    let lo = block << 24;
    let bad = unsafe { (api().vloop)(lo, lo | 0xff_ffff) };
    cx.outcome("inverse");
    cx.count("versions", 1 << 24);
    check(bad == 1 << 32, || format!("version {:#x} is not packed and unpacked as the C macros do", bad))?;
    // through the library's boundary, where the compiler cannot cheat
    for major in (block * 256..block * 256 + 256).step_by(17) {
        for minor in MINORS {
            let a = api();
            let v = unsafe { (a.mk)(major, minor) };
            check(v == major * 65536 + minor, || format!("{}.{} is packed as {:#x}", major, minor, v))?;
            check(unsafe { (a.major)(v) == major && (a.minor)(v) == minor }, || format!("{:#x} is unpacked wrongly", v))?;
        }
    }
    Ok(())
}

fn pairs(cx: &mut Cx) -> Result<(), String> {
    start(true);
    const V: [(u32, u32); 12] = [(0, 0), (0, 9), (0, 65535), (1, 0), (1, 2), (1, 8), (1, 9), (1, 17), (2, 0), (2, 8), (256, 0), (65535, 65535)];
    let k = cx.input(3);
    let mut si = lean();
    for _ in 0..cx.qt(3, 4) {
        let (a, b) = *cx.pick(&V);
        if k == 2 {
            si.version = a << 16 | b;
            let r = open_at(plugin(2), &si);
            let ok = a > 1 || (a == 1 && b >= 9);
            check((r == 1) == ok, || format!("{}.{} returned {}", a, b, r))?;
            check(take().is_empty() != ok, || "plugin code".into())?;
            close_at(plugin(2), 0, 0);
        } else {
            one(cx, k, &mut si, a, b)?;
        }
    }
    Ok(())
}
