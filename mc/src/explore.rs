//! Exhaustive, deviation-bounded, stateless exploration by replay.
//!
//! An execution is determined by its list of choices.  `input` choices are
//! free (every alternative is always explored); `dev` choices depart from the
//! environment's default answer and each non-default one costs 1 of the
//! bound.  Running a prefix takes alternative 0 at every later point; the
//! children of a run are all prefixes that differ from it at one later
//! point.  So every choice list within the bound is run exactly once.

use crate::world::*;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::time::Instant;

#[derive(Default, Clone)]
pub struct Chooser {
    pub prefix: Vec<u32>,
    pub trace: Vec<(u32, u32, bool)>, // (alternatives, chosen, is deviation)
    pub devs: usize,
    pub bound: usize,
    pub diverged: bool,
}

static mut SHARED: *mut Shared = std::ptr::null_mut();

const MAXC: usize = 4096;

#[repr(C)]
struct Shared {
    next: std::sync::atomic::AtomicUsize,
    stop: std::sync::atomic::AtomicUsize,
    slot: [Slot; 16],
}

#[repr(C)]
struct Slot {
    n: u32,
    c: [u32; MAXC],
}

/// The history (see `earlier`) that precedes every execution, in the pair
/// plugin and in the probes.
pub static mut AFTER: (usize, bool, bool) = (0, false, false);

static mut MY_SLOT: usize = 15;

/// In a child that is part of an execution: leave the crash record alone.
pub fn detach() {
    unsafe { SHARED = std::ptr::null_mut() }
}

/// Keeps this worker, and the processes it starts, on one processor: they
/// take turns anyway.
pub fn pin() {
    static mut DONE: bool = false;
    unsafe {
        if DONE {
            return;
        }
        DONE = true;
        let mut all: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut all) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &all)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[MY_SLOT % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &one);
    }
}

impl Chooser {
    fn pick(&mut self, n: usize, dev: bool) -> usize {
        let i = self.trace.len();
        let mut c = 0;
        if i < self.prefix.len() {
            c = self.prefix[i];
            if c as usize >= n {
                self.diverged = true;
                c = 0;
            }
        }
        if dev && c > 0 {
            self.devs += 1;
        }
        self.trace.push((n as u32, c, dev));
        unsafe {
            if !SHARED.is_null() && i < MAXC {
                let s = &mut (*SHARED).slot[MY_SLOT];
                s.c[i] = c;
                s.n = i as u32 + 1;
            }
        }
        c as usize
    }
    pub fn input(&mut self, n: usize) -> usize {
        if n <= 1 { 0 } else { self.pick(n, false) }
    }
    pub fn dev(&mut self, n: usize) -> usize {
        if n <= 1 { 0 } else { self.pick(n, true) }
    }
    fn start(&mut self, prefix: Vec<u32>, bound: usize) {
        self.prefix = prefix;
        self.trace.clear();
        self.devs = 0;
        self.bound = bound;
        self.diverged = false;
        unsafe {
            if !SHARED.is_null() {
                (*SHARED).slot[MY_SLOT].n = 0;
            }
        }
    }
    /// Children of the execution that just ran.
    fn children(&self) -> Vec<Vec<u32>> {
        let mut out = vec![];
        let mut cost = 0;
        for (i, (n, c, dev)) in self.trace.iter().enumerate() {
            if i >= self.prefix.len() {
                if !*dev || cost + 1 <= self.bound {
                    for alt in 1..*n {
                        let mut p: Vec<u32> = self.trace[..i].iter().map(|t| t.1).collect();
                        p.push(alt);
                        out.push(p);
                    }
                }
            }
            if *dev && *c > 0 {
                cost += 1;
            }
        }
        out
    }
}

pub struct Harness {
    pub name: &'static str,
    pub what: &'static str,
    pub bound: usize,
    /// the plugin is exercised directly (true for everything but the
    /// purely arithmetical enumerations)
    pub run: fn(&mut Cx) -> Result<(), String>,
    pub expect: &'static [&'static str],
}

pub struct Cx {
    pub thorough: bool,
    pub outcomes: BTreeMap<String, u64>,
    pub desc: String,
    pub want_desc: bool,
    pub extra: BTreeMap<String, u64>,
}

impl Cx {
    pub fn input(&mut self, n: usize) -> usize {
        let k = w().ch.input(n);
        w().note(&[0xc0, k as u8, (k >> 8) as u8, (k >> 16) as u8]);
        k
    }
    pub fn flag(&mut self) -> bool {
        self.input(2) == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.input(v.len())]
    }
    /// quick or thorough size
    pub fn qt<T>(&self, q: T, t: T) -> T {
        if self.thorough { t } else { q }
    }
    pub fn outcome(&mut self, s: &str) {
        match self.outcomes.get_mut(s) {
            Some(n) => *n += 1,
            None => {
                self.outcomes.insert(s.to_string(), 1);
            }
        }
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let s = f();
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.push_str(&s);
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.extra.entry(k.to_string()).or_insert(0) += n;
    }
}

#[derive(Clone)]
pub struct Viol {
    pub after: usize,
    pub choices: Vec<u32>,
    pub devs: usize,
    pub msg: String,
    pub crash: bool,
}

#[derive(Default)]
pub struct Res {
    pub execs: u64,
    pub steps: u64,
    pub states: u64,
    pub max_depth: usize,
    pub max_steps: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub extra: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub diverged: Vec<Vec<u32>>,
    pub complete: bool,
    pub capped: Option<String>,
    pub devs_hist: BTreeMap<usize, u64>,
    pub known: BTreeMap<String, u64>,
}

struct Local {
    known: BTreeMap<String, u64>,
    execs: u64,
    steps0: u64,
    max_depth: usize,
    max_steps: u64,
    samples: Vec<String>,
    viols: Vec<Viol>,
    diverged: Vec<Vec<u32>>,
    devs_hist: BTreeMap<usize, u64>,
    queue: Vec<Vec<u32>>,
    capped: bool,
}

pub fn run_one(h: &Harness, cx: &mut Cx, prefix: Vec<u32>, bound: usize) -> Result<(), String> {
    unsafe { libc::alarm(60) };
    let wd = w();
    wd.ch.start(prefix, bound);
    cx.desc.clear();
    crate::sess::reset_world();
    unsafe {
        if AFTER.0 > 0 {
            crate::props::earlier::run(AFTER.0, AFTER.1, AFTER.2);
        }
    }
    let r = (h.run)(cx);
    crate::sess::finish_world();
    r
}

impl Local {
    fn new() -> Local {
        Local {
            known: BTreeMap::new(),
            execs: 0,
            steps0: w().total_steps,
            max_depth: 0,
            max_steps: 0,
            samples: vec![],
            viols: vec![],
            diverged: vec![],
            devs_hist: BTreeMap::new(),
            queue: vec![],
            capped: false,
        }
    }
    fn exec(&mut self, h: &Harness, cx: &mut Cx, prefix: Vec<u32>, bound: usize, known: &[crate::Known]) -> Vec<Vec<u32>> {
        cx.want_desc = self.samples.len() < 3 || (self.execs % 1009 == 0 && self.samples.len() < 8);
        let r = run_one(h, cx, prefix, bound);
        self.execs += 1;
        let wd = w();
        self.max_depth = self.max_depth.max(wd.ch.trace.len());
        self.max_steps = self.max_steps.max(wd.steps);
        *self.devs_hist.entry(wd.ch.devs).or_insert(0) += 1;
        if wd.ch.diverged {
            self.diverged.push(wd.ch.prefix.clone());
        }
        if cx.want_desc {
            let ev = show_events(&wd.evs);
            let n = ev.len();
            let mut ev: Vec<String> = ev.into_iter().take(60).collect();
            if n > 60 {
                ev.push(format!("... {} more", n - 60));
            }
            self.samples.push(format!("{} :: {}", cx.desc, ev.join(" | ")));
        }
        if let Err(msg) = r {
            let kids = wd.ch.children();
            if !known.is_empty() {
                // is it a recorded one?  (needs the description)
                let ch: Vec<u32> = wd.ch.trace.iter().map(|t| t.1).collect();
                cx.want_desc = true;
                let saved = cx.outcomes.clone();
                let r2 = run_one(h, cx, ch, bound);
                cx.outcomes = saved;
                if let Err(m2) = &r2 {
                    if let Some(k) = known.iter().find(|k| m2.contains(&k.what) && cx.desc.contains(&k.input)) {
                        *self.known.entry(format!("{}|{}|{}", k.harness, k.input, k.what)).or_insert(0) += 1;
                        return kids;
                    }
                }
            }
            let wd = w();
            if self.viols.len() < 50 {
                self.viols.push(Viol {
                    after: unsafe { AFTER.0 },
                    choices: wd.ch.trace.iter().map(|t| t.1).collect(),
                    devs: wd.ch.devs,
                    msg,
                    crash: false,
                });
            }
            return kids;
        }
        wd.ch.children()
    }
}

fn esc(s: &str) -> String {
    crate::json::quote(s)
}

unsafe fn shared_map() -> *mut Shared {
    let p = libc::mmap(
        std::ptr::null_mut(),
        std::mem::size_of::<Shared>(),
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS,
        -1,
        0,
    );
    p as *mut Shared
}

pub fn explore(h: &Harness, thorough: bool, nworkers: usize, deadline: Instant, known: &[crate::Known]) -> Res {
    use std::sync::atomic::Ordering::SeqCst;
    let mut res = Res::default();
    let bound = h.bound;
    unsafe {
        SHARED = shared_map();
    }
    // Phase 1: a child expands the tree breadth first until there is enough
    // to share; it is a child so that a crash cannot take us with it.
    // Phase 2: workers take whole subtrees.
    let dir = w().work.clone();
    let _ = std::fs::create_dir_all(&dir);
    let mut frontier: Vec<Vec<u32>> = vec![vec![]];
    let mut all_states: HashSet<u64> = HashSet::new();
    for phase in 0..2 {
        if frontier.is_empty() || !res.viols.is_empty() && phase == 1 && res.viols.iter().any(|v| v.crash) {
            break;
        }
        let nw = if phase == 0 { 1 } else { nworkers };
        unsafe {
            (*SHARED).next.store(0, SeqCst);
            (*SHARED).stop.store(0, SeqCst);
        }
        let mut pids = vec![];
        for k in 0..nw {
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                unsafe {
                    MY_SLOT = k;
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                }
                worker(h, thorough, bound, k, phase, &frontier, &dir, deadline, known);
                unsafe { libc::_exit(0) };
            }
            pids.push(pid);
        }
        let mut queue = vec![];
        for (k, pid) in pids.iter().enumerate() {
            let mut st = 0;
            unsafe { libc::waitpid(*pid, &mut st, 0) };
            let ok = libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0;
            if !ok {
                let s = unsafe { &(*SHARED).slot[k] };
                let choices = s.c[..(s.n as usize).min(MAXC)].to_vec();
                let msg = describe_status(st);
                if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 2 {
                    eprintln!("mc: worker failed internally");
                    std::process::exit(2);
                }
                res.viols.push(Viol { after: unsafe { AFTER.0 }, choices, devs: 0, msg, crash: true });
                continue;
            }
            let body = std::fs::read_to_string(format!("{}/r{}", dir, k)).unwrap_or_default();
            for line in body.lines() {
                let f: Vec<&str> = line.split('\t').collect();
                match f[0] {
                    "execs" => res.execs += f[1].parse::<u64>().unwrap(),
                    "steps" => res.steps += f[1].parse::<u64>().unwrap(),
                    "depth" => res.max_depth = res.max_depth.max(f[1].parse().unwrap()),
                    "maxsteps" => res.max_steps = res.max_steps.max(f[1].parse().unwrap()),
                    "capped" => res.capped = Some("time".into()),
                    "known" => *res.known.entry(crate::json::unescape(f[1])).or_insert(0) += f[2].parse::<u64>().unwrap(),
                    "out" => *res.outcomes.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
                    "ext" => *res.extra.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
                    "dev" => *res.devs_hist.entry(f[1].parse().unwrap()).or_insert(0) += f[2].parse::<u64>().unwrap(),
                    "q" => queue.push(parse_choices(f[1])),
                    "div" => res.diverged.push(parse_choices(f[1])),
                    "sample" => {
                        if res.samples.len() < 6 {
                            res.samples.push(crate::json::unescape(f[1]))
                        }
                    }
                    "viol" => res.viols.push(Viol {
                        after: unsafe { AFTER.0 },
                        devs: f[1].parse().unwrap(),
                        choices: parse_choices(f[2]),
                        msg: crate::json::unescape(f[3]),
                        crash: false,
                    }),
                    _ => {}
                }
            }
            let st = std::fs::read(format!("{}/s{}", dir, k)).unwrap_or_default();
            for c in st.chunks_exact(8) {
                all_states.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        frontier = queue;
    }
    res.states = all_states.len() as u64;
    res.complete = res.capped.is_none() && res.viols.iter().all(|v| !v.crash);
    res.viols.sort_by_key(|v| (v.devs, v.choices.len(), v.choices.clone()));
    unsafe {
        libc::munmap(SHARED as *mut libc::c_void, std::mem::size_of::<Shared>());
        SHARED = std::ptr::null_mut();
    }
    res
}

pub fn describe_status(st: i32) -> String {
    if libc::WIFSIGNALED(st) {
        let s = libc::WTERMSIG(st);
        let n = match s {
            libc::SIGABRT => "SIGABRT (abort)",
            libc::SIGSEGV => "SIGSEGV",
            libc::SIGBUS => "SIGBUS",
            libc::SIGILL => "SIGILL",
            libc::SIGFPE => "SIGFPE",
            libc::SIGPIPE => "SIGPIPE",
            libc::SIGALRM => "no termination within 60 s",
            libc::SIGKILL => "SIGKILL (out of memory?)",
            _ => "signal",
        };
        format!("crash: the plugin took the process down: {} ({})", n, s)
    } else {
        match libc::WEXITSTATUS(st) {
            EXIT_NONTERM => "nontermination: the call never ends".into(),
            EXIT_EXITED => "exit: the plugin ended the sudo process".into(),
            k => format!("crash: worker exit {}", k),
        }
    }
}

pub fn parse_choices(s: &str) -> Vec<u32> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

pub fn show_choices(v: &[u32]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn worker(h: &Harness, thorough: bool, bound: usize, k: usize, phase: usize, frontier: &[Vec<u32>], dir: &str, deadline: Instant, known: &[crate::Known]) {
    use std::fmt::Write;
    use std::sync::atomic::Ordering::SeqCst;
    crate::sess::enter_worker(k);
    let mut cx = Cx { thorough, outcomes: BTreeMap::new(), desc: String::new(), want_desc: false, extra: BTreeMap::new() };
    let mut l = Local::new();
    if phase == 0 {
        let mut q: VecDeque<Vec<u32>> = frontier.to_vec().into();
        let t0 = Instant::now();
        while let Some(p) = q.pop_front() {
            for c in l.exec(h, &mut cx, p, bound, known) {
                q.push_back(c);
            }
            // (slow executions are shared early)
            let slow = t0.elapsed().as_millis() > 300 && q.len() >= 64 || t0.elapsed().as_secs() > 5 && q.len() >= 8;
            if q.len() >= 2000 || l.execs >= 3000 || slow || !l.viols.is_empty() {
                break;
            }
            if Instant::now() > deadline {
                l.capped = true;
                break;
            }
        }
        l.queue = q.into();
    } else {
        let sh = unsafe { &*SHARED };
        'o: loop {
            let i = sh.next.fetch_add(1, SeqCst);
            if i >= frontier.len() {
                break;
            }
            let mut stack = vec![frontier[i].clone()];
            while let Some(p) = stack.pop() {
                let kids = l.exec(h, &mut cx, p, bound, known);
                stack.extend(kids.into_iter().rev());
                if l.viols.len() >= 20 {
                    break 'o;
                }
                if l.execs % 64 == 0 {
                    if Instant::now() > deadline {
                        l.capped = true;
                        break 'o;
                    }
                    if sh.stop.load(SeqCst) != 0 {
                        break 'o;
                    }
                }
            }
            if !l.viols.is_empty() {
                sh.stop.store(1, SeqCst);
            }
        }
    }
    unsafe { libc::alarm(0) };
    let mut o = String::new();
    let _ = writeln!(o, "execs\t{}\nsteps\t{}\ndepth\t{}\nmaxsteps\t{}", l.execs, w().total_steps - l.steps0, l.max_depth, l.max_steps);
    if l.capped {
        let _ = writeln!(o, "capped");
    }
    for (a, b) in &l.known {
        let _ = writeln!(o, "known\t{}\t{}", esc(a), b);
    }
    for (a, b) in &cx.outcomes {
        let _ = writeln!(o, "out\t{}\t{}", a, b);
    }
    for (a, b) in &cx.extra {
        let _ = writeln!(o, "ext\t{}\t{}", a, b);
    }
    for (a, b) in &l.devs_hist {
        let _ = writeln!(o, "dev\t{}\t{}", a, b);
    }
    for q in &l.queue {
        let _ = writeln!(o, "q\t{}", show_choices(q));
    }
    for q in l.diverged.iter().take(5) {
        let _ = writeln!(o, "div\t{}", show_choices(q));
    }
    for s in &l.samples {
        let _ = writeln!(o, "sample\t{}", esc(s));
    }
    for v in &l.viols {
        let _ = writeln!(o, "viol\t{}\t{}\t{}", v.devs, show_choices(&v.choices), esc(&v.msg));
    }
    std::fs::write(format!("{}/r{}", dir, k), o).unwrap();
    let mut sb = Vec::with_capacity(w().states.len() * 8);
    for s in &w().states {
        sb.extend_from_slice(&s.to_le_bytes());
    }
    std::fs::write(format!("{}/s{}", dir, k), sb).unwrap();
    crate::sess::leave_worker();
}

/// Re-runs one choice list in a fresh process; its message, if it fails.
pub fn replay(h: &Harness, thorough: bool, choices: &[u32], verbose: bool) -> Option<String> {
    let f = format!("{}/replay", w().work);
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        crate::sess::enter_worker(9);
        let mut cx = Cx { thorough, outcomes: BTreeMap::new(), desc: String::new(), want_desc: true, extra: BTreeMap::new() };
        let r = run_one(h, &mut cx, choices.to_vec(), usize::MAX);
        let mut o = String::new();
        if let Err(m) = &r {
            o = format!("V{}", m);
        }
        let log = format!("{}\n{}", cx.desc, show_events(&w().evs).join("\n"));
        std::fs::write(&f, &o).unwrap();
        std::fs::write(format!("{}.log", f), &log).unwrap();
        if verbose {
            println!("{}", log);
        }
        crate::sess::leave_worker();
        unsafe { libc::_exit(0) };
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    let ok = libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0;
    let body = std::fs::read_to_string(&f).unwrap_or_default();
    let _ = std::fs::remove_file(&f);
    if !ok {
        return Some(describe_status(st));
    }
    body.strip_prefix('V').map(|s| s.to_string())
}

pub fn replay_log() -> String {
    let f = format!("{}/replay.log", w().work);
    let s = std::fs::read_to_string(&f).unwrap_or_default();
    let _ = std::fs::remove_file(&f);
    s
}
