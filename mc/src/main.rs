//! mc: bounded exhaustive exploration of the real sudo_pair plugin.
#![allow(static_mut_refs)]

mod abi;
mod dict;
mod explore;
mod got;
mod json;
mod props;
mod script;
mod sess;
mod world;
mod wraps;

use explore::*;
use json::quote;
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

fn arg(name: &str) -> String {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned()).unwrap_or_default()
}

fn fail(msg: &str) -> ! {
    println!("ERROR: {}", msg);
    std::process::exit(2)
}

/// One recorded, unrepaired defect: an execution of `harness` whose
/// description contains `input` and that fails with a message containing
/// `what` is reported as known and does not count as a violation.
#[derive(Clone, Debug)]
pub struct Known {
    pub harness: String,
    pub input: String,
    pub what: String,
}

fn load_known(path: &str, id: &str) -> Vec<Known> {
    let body = std::fs::read_to_string(path).unwrap_or_default();
    let mut v = vec![];
    // one entry per line, see the file
    for line in body.lines() {
        if json::get_str(line, "status").as_deref() != Some("open") || json::get_str(line, "property").as_deref() != Some(id) {
            continue;
        }
        v.push(Known {
            harness: json::get_str(line, "harness").unwrap_or_default(),
            input: json::get_str(line, "input").unwrap_or_default(),
            what: json::get_str(line, "what").unwrap_or_default(),
        });
    }
    v
}

fn pick_scratch() -> String {
    for base in ["/dev/shm", "/tmp", "/var/tmp"] {
        let p = format!("{}/mc.{}", base, std::process::id());
        let _ = std::fs::remove_dir_all(&p);
        if std::fs::create_dir(&p).is_ok() {
            use std::os::unix::fs::PermissionsExt;
            let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755));
            return p;
        }
    }
    fail("no scratch directory")
}

struct Cleanup(String);
impl Drop for Cleanup {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Teardown;
impl Drop for Teardown {
    fn drop(&mut self) {
        script::teardown();
    }
}

fn main() {
    if let Some(c) = script::stub_main() {
        std::process::exit(c);
    }
    // no symbolised backtraces from panics in the plugin
    for k in ["RUST_BACKTRACE", "RUST_LIB_BACKTRACE"] {
        unsafe { std::env::set_var(k, "0") };
    }
    let code = real_main();
    std::process::exit(code)
}

fn real_main() -> i32 {
    let t0 = Instant::now();
    let id = std::env::args().nth(1).unwrap_or_default();
    if id == "--needs" {
        let id = std::env::args().nth(2).unwrap_or_default();
        return match props::find(&id) {
            Some(s) => {
                println!("{}", s.needs);
                0
            }
            None => 2,
        };
    }
    let tier = arg("--tier");
    let thorough = tier == "thorough";
    let verif = arg("--verif");
    let repo = arg("--repo");
    let only = arg("--only");
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if unsafe { libc::geteuid() } != 0 {
        fail("mc must run as root (it drives a plugin of sudo)");
    }
    let scratch = pick_scratch();
    let _clean = Cleanup(scratch.clone());
    world::init_world(scratch.clone());
    world::w().work = format!("{}.work", scratch);
    let _clean2 = Cleanup(world::w().work.clone());
    std::fs::create_dir_all(&world::w().work).unwrap();
    unsafe {
        SCRIPT.repo = repo.clone();
        SCRIPT.shim = arg("--shim");
        SCRIPT.root = scratch.clone();
    }
    // quiet panics of our own would look like the plugin's: keep ours loud
    // but the plugin has its own copy of the Rust runtime anyway
    let spec = match props::find(&id) {
        Some(s) => s,
        None => fail(&format!("unknown property {}", id)),
    };
    if let Err(e) = sess::load(
        if spec.needs.contains('p') { arg("--plugin") } else { String::new() }.as_str(),
        if spec.needs.contains('b') { arg("--probe") } else { String::new() }.as_str(),
        if spec.needs.contains('d') { arg("--deny") } else { String::new() }.as_str(),
    ) {
        // an object that cannot be loaded (or lacks its table) is what sudo
        // would meet too
        if e.starts_with("no symbol") && id == "C21" {
            println!("VIOLATION property=C21 replay=-");
            return 1;
        }
        fail(&e);
    }
    if spec.needs.contains('s') {
        if let Err(e) = script::setup() {
            fail(&format!("cannot set up the script: {}", e));
        }
    }
    let _clean3 = Teardown;
    let unmodelled = sess::unmodelled_imports();

    let rep = arg("--replay");
    if !rep.is_empty() {
        return do_replay(&spec, thorough, &rep);
    }

    let known = load_known(&format!("{}/known_findings.jsonl", verif), &id);
    let cpus = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 14);
    let budget = Duration::from_secs(
        std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 500 }),
    );
    let deadline = t0 + budget;

    let mut total = Res::default();
    let mut per: Vec<String> = vec![];
    let mut viols: Vec<(String, Viol)> = vec![];
    let mut missing: Vec<String> = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut complete = true;
    let limit = 20_000;
    let histories = history_setup(&spec);
    let hs: Vec<Harness> = (spec.harnesses)(thorough);
    // each harness by itself, then again after each earlier history
    let mut todo: std::collections::VecDeque<(&Harness, usize)> = hs.iter().filter(|h| only.is_empty() || h.name == only).map(|h| (h, 0)).collect();
    while let Some((h, after)) = todo.pop_front() {
        unsafe { AFTER.0 = after };
        let full = if after == 0 { h.name.to_string() } else { format!("{}+{}", h.name, after) };
        let th = Instant::now();
        let kn: Vec<Known> = known.iter().filter(|k| k.harness == h.name).cloned().collect();
        let r = explore(h, thorough, cpus, deadline, &kn);
        println!(
            "{} {:<28} executions {:>9}  states {:>9}  steps {:>10}  depth {:>3}  deviations<={}  {:.1}s{}",
            id,
            full,
            r.execs,
            r.states,
            r.steps,
            r.max_depth,
            h.bound,
            th.elapsed().as_secs_f64(),
            if r.capped.is_some() { "  CAPPED (time)" } else { "" }
        );
        if std::env::var("MC_VERBOSE").is_ok() {
            for (k, n) in &r.outcomes {
                println!("      {:>9} {}", n, k);
            }
        }
        if !r.diverged.is_empty() && r.viols.is_empty() {
            fail(&format!("{}: replay of a prefix diverged: {}", h.name, show_choices(&r.diverged[0])));
        }
        complete &= r.complete;
        for e in h.expect {
            if !r.outcomes.keys().any(|k| k.starts_with(e)) {
                missing.push(format!("{}: outcome '{}' never seen", h.name, e));
            }
        }
        for (k, n) in &r.known {
            *known_hits.entry(k.clone()).or_insert(0) += n;
        }
        per.push(format!(
            "{{\"name\":{},\"what\":{},\"executions\":{},\"states\":{},\"transitions\":{},\"max_choices\":{},\"max_steps\":{},\"deviation_bound\":{},\"deviation_histogram\":{{{}}},\"outcomes\":{{{}}},\"counters\":{{{}}},\"complete\":{},\"capped\":{}}}",
            quote(&full),
            quote(&if after == 0 { h.what.to_string() } else { format!("the same {}", props::earlier::HISTORIES[after - 1]) }),
            r.execs,
            r.states,
            r.steps,
            r.max_depth,
            r.max_steps,
            h.bound,
            r.devs_hist.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","),
            r.outcomes.iter().map(|(k, v)| format!("{}:{}", quote(k), v)).collect::<Vec<_>>().join(","),
            r.extra.iter().map(|(k, v)| format!("{}:{}", quote(k), v)).collect::<Vec<_>>().join(","),
            r.complete,
            r.capped.as_ref().map_or("null".into(), |c| quote(c)),
        ));
        total.execs += r.execs;
        total.states += r.states;
        total.steps += r.steps;
        total.extra.extend(r.extra.clone());
        for s in r.samples.iter().take(if after == 0 { 2 } else { 0 }) {
            total.samples.push(format!("{}: {}", full, s));
        }
        if after == 0 && histories > 0 && (r.execs <= limit && r.steps <= 20_000_000 || thorough) {
            todo.extend((1..=histories).map(|a| (h, a)));
        }
        let stop = !r.viols.is_empty();
        for v in r.viols {
            viols.push((h.name.to_string(), v));
        }
        if stop && !thorough {
            break; // enough to report
        }
    }

    // confirm and write down each violation (the smallest per message)
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut reported = 0;
    let mut flaky = vec![];
    let dir = format!("{}/.work/replays", verif);
    let _ = std::fs::create_dir_all(&dir);
    for (hn, v) in &viols {
        unsafe { AFTER.0 = v.after };
        let sig = format!("{}|{}", hn, v.msg.chars().filter(|c| !c.is_ascii_digit()).take(60).collect::<String>());
        if !seen.insert(sig) || reported >= 8 {
            continue;
        }
        let h = hs.iter().find(|h| h.name == *hn).unwrap();
        let mut msgs = vec![];
        for _ in 0..3 {
            msgs.push(replay(h, thorough, &v.choices, false));
        }
        let log = replay_log();
        if msgs.iter().any(|m| m.is_none()) {
            flaky.push(format!("{}: {} [choices {}] replays: {:?}", hn, v.msg, show_choices(&v.choices), msgs));
            continue;
        }
        reported += 1;
        let f = format!("{}/{}.{}.json", dir, id, reported);
        let body = format!(
            "{{\"property\":{},\"harness\":{},\"after\":\"{}\",\"tier\":{},\"choices\":\"{}\",\"message\":{},\"execution\":{}}}\n",
            quote(&id),
            quote(hn),
            v.after,
            quote(if thorough { "thorough" } else { "quick" }),
            show_choices(&v.choices),
            quote(&v.msg),
            quote(&log)
        );
        std::fs::write(&f, body).unwrap();
        println!("  {}{}: {}", hn, if v.after > 0 { format!(", {}", props::earlier::HISTORIES[v.after - 1]) } else { String::new() }, msgs[0].clone().unwrap());
        for l in log.lines().take(40) {
            println!("    {}", l);
        }
        println!("VIOLATION property={} replay={}", id, f);
    }
    for f in &flaky {
        println!("not reproducible: {}", f);
    }
    for k in &known {
        let key = format!("{}|{}|{}", k.harness, k.input, k.what);
        if known_hits.contains_key(&key) {
            println!("KNOWN-FINDING: property={} {}: {} ({})", id, k.harness, k.what, k.input);
        }
    }

    let mut assumptions: Vec<String> = spec.assumptions.iter().map(|s| s.to_string()).collect();
    if !unmodelled.is_empty() {
        assumptions.push(format!("imports of the plugin that pass through unmodelled: {}", unmodelled.join(" ")));
    }
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"executions\":{},\"exhaustive\":{},\"rule\":{},\"harnesses\":[{}],\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        quote(&id),
        quote(if thorough { "thorough" } else { "quick" }),
        seed,
        total.states,
        total.steps,
        total.execs,
        total.execs,
        complete && viols.is_empty(),
        quote("every choice sequence within the deviation bound is executed once against the real shared object built from /repo; a state is the hash of everything the environment has observed so far in an execution, a transition one intercepted call or environment step; every execution is a trace of the implementation compared with the reference model"),
        per.join(","),
        total.samples.iter().take(12).map(|s| quote(&s.chars().take(1800).collect::<String>())).collect::<Vec<_>>().join(","),
        assumptions.iter().map(|s| quote(s)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64(),
        reported,
    );
    let evf = arg("--evidence");
    if !evf.is_empty() {
        if let Some(d) = std::path::Path::new(&evf).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(&evf, ev).unwrap();
    }
    println!(
        "{}: {} executions, {} states, {} transitions, {:.1}s, {}",
        id,
        total.execs,
        total.states,
        total.steps,
        t0.elapsed().as_secs_f64(),
        if reported > 0 { "VIOLATED" } else { "held" }
    );
    if reported > 0 {
        return 1;
    }
    if !flaky.is_empty() {
        println!("ERROR: a failure did not reproduce; the harness does not own all nondeterminism");
        return 2;
    }
    if !missing.is_empty() && only.is_empty() {
        for m in missing {
            println!("ERROR: vacuous: {}", m);
        }
        return 2;
    }
    0
}

pub struct ScriptEnv {
    pub repo: String,
    pub shim: String,
    pub root: String,
    /// where the script and its stand-ins are
    pub bin: String,
}
pub static mut SCRIPT: ScriptEnv = ScriptEnv { repo: String::new(), shim: String::new(), root: String::new(), bin: String::new() };

/// How many earlier histories a property's harnesses are run after.
fn history_setup(spec: &props::Spec) -> usize {
    let (p, b) = (spec.needs.contains('p'), spec.needs.contains('b'));
    unsafe { AFTER = (0, p, b) };
    if p || b { props::earlier::HISTORIES.len() } else { 0 }
}

fn do_replay(spec: &props::Spec, _thorough: bool, file: &str) -> i32 {
    let body = match std::fs::read_to_string(file) {
        Ok(b) => b,
        Err(e) => fail(&format!("{}: {}", file, e)),
    };
    let hn = json::get_str(&body, "harness").unwrap_or_default();
    let thorough = json::get_str(&body, "tier").as_deref() == Some("thorough");
    history_setup(spec);
    unsafe { AFTER.0 = json::get_str(&body, "after").and_then(|s| s.parse().ok()).unwrap_or(0) };
    let ch = parse_choices(&json::get_str(&body, "choices").unwrap_or_default());
    let hs = (spec.harnesses)(thorough);
    let h = match hs.iter().find(|h| h.name == hn) {
        Some(h) => h,
        None => fail("no such harness"),
    };
    match replay(h, thorough, &ch, true) {
        Some(m) => {
            println!("{}: {}", hn, m);
            println!("VIOLATION property={} replay={}", spec.id, file);
            1
        }
        None => {
            println!("{}: this execution now satisfies {}", hn, spec.id);
            0
        }
    }
}
