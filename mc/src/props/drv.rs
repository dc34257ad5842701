//! Driving the probe plugins (/verif/probe), whose methods do what they are
//! told and tell what they see.
#![allow(static_mut_refs)]

use super::util::*;
use crate::abi::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rec {
    pub plugin: u32,
    pub inst: u64,
    pub method: u32,
    pub data: Vec<u8>,
    pub a: i64,
    pub b: i64,
}

pub const OPEN: u32 = 0;
pub const CLOSE: u32 = 1;
pub const VERSION: u32 = 2;
pub const WINSIZE: u32 = 8;
pub const DROP: u32 = 9;
pub const METHODS: [&str; 10] = ["open", "close", "show_version", "log_ttyin", "log_ttyout", "log_stdin", "log_stdout", "log_stderr", "change_winsize", "drop"];

/// The method a stream's callback is to reach.
pub fn method_of(st: Stream) -> u32 {
    match st {
        Stream::TtyIn => 3,
        Stream::TtyOut => 4,
        Stream::Stdin => 5,
        Stream::Stdout => 6,
        Stream::Stderr => 7,
    }
}
pub fn hint_of(st: Stream) -> &'static str {
    match st {
        Stream::TtyIn => "iolog_ttyin",
        Stream::TtyOut => "iolog_ttyout",
        Stream::Stdin => "iolog_stdin",
        Stream::Stdout => "iolog_stdout",
        Stream::Stderr => "iolog_stderr",
    }
}

pub struct Drv {
    pub recs: Vec<Rec>,
    pub code: [u64; 10],
}
pub static mut DRV: Drv = Drv { recs: vec![], code: [0; 10] };
pub fn drv() -> &'static mut Drv {
    unsafe { &mut DRV }
}

unsafe extern "C" fn driver(plugin: u32, inst: u64, method: u32, p: *const u8, n: usize, a: i64, b: i64) -> u64 {
    let data = if n == 0 { vec![] } else { std::slice::from_raw_parts(p, n).to_vec() };
    let wd = w();
    if method == OPEN {
        wd.note(&data);
    }
    wd.steps += 1;
    wd.total_steps += 1;
    wd.leave(&Op::new(METHODS[method as usize], Cls::None).arg((plugin as u64) << 8 | method as u64).len(n), a, 0, false);
    let d = drv();
    d.recs.push(Rec { plugin, inst, method, data, a, b });
    d.code[method as usize]
}

type SetDriver = unsafe extern "C" fn(unsafe extern "C" fn(u32, u64, u32, *const u8, usize, i64, i64) -> u64, bool, u8, u8);
type Print = unsafe extern "C" fn(bool, u32, *const u8, usize) -> i64;
type MapNew = unsafe extern "C" fn(*const *const libc::c_char) -> *mut libc::c_void;
type MapFree = unsafe extern "C" fn(*mut libc::c_void);
type MapGet = unsafe extern "C" fn(*const libc::c_void, u32, *const u8, usize, *mut u8, usize) -> i64;
type U1 = unsafe extern "C" fn(u32) -> u32;
type U2 = unsafe extern "C" fn(u32, u32) -> u32;

pub struct Api {
    set: SetDriver,
    print: Print,
    map_new: MapNew,
    map_free: MapFree,
    map_get: MapGet,
    pub mk: U2,
    pub major: U1,
    pub minor: U1,
    pub vloop: unsafe extern "C" fn(u32, u32) -> u64,
    pub env_version: unsafe extern "C" fn() -> i64,
    pub text: unsafe extern "C" fn(u32) -> *const libc::c_char,
    pub table: unsafe extern "C" fn(u32, bool) -> *mut u8,
    pub plugins: [*mut IoPlugin; 3],
}
static mut API: Option<Api> = None;

pub fn api() -> &'static Api {
    unsafe {
        if API.is_none() {
            use std::mem::transmute as t;
            API = Some(Api {
                set: t(probe_sym("probe_driver")),
                print: t(probe_sym("probe_print")),
                map_new: t(probe_sym("probe_map_new")),
                map_free: t(probe_sym("probe_map_free")),
                map_get: t(probe_sym("probe_map_get")),
                mk: t(probe_sym("probe_mk")),
                major: t(probe_sym("probe_major")),
                minor: t(probe_sym("probe_minor")),
                vloop: t(probe_sym("probe_version_loop")),
                env_version: t(probe_sym("probe_env_version")),
                text: t(probe_sym("probe_text")),
                table: t(probe_sym("probe_table")),
                plugins: [probe_sym("probe_a") as _, probe_sym("probe_b") as _, probe_sym("probe_c") as _],
            });
        }
        API.as_ref().unwrap()
    }
}

/// Starts an execution: nothing recorded, every method to succeed.
pub fn start(dump: bool) {
    start_from(dump, 2, 1)
}
/// ... with the statuses the probes' errors ask for when made from one of
/// the library's.
pub fn start_from(dump: bool, open: u8, log: u8) {
    let d = drv();
    d.recs.clear();
    d.code = [0; 10];
    unsafe { (api().set)(driver, dump, open, log) }
}

pub fn plugin(k: usize) -> *mut IoPlugin {
    api().plugins[k]
}
pub const NAMES: [&str; 3] = ["probe-a", "b %s\u{e9}", "plain"];

pub fn code(kind: u64, status: u64, causes: u64, text: u64) -> u64 {
    kind | status << 8 | causes << 16 | text << 24
}

/// The text of the i-th error of a chain (as in the probe).
pub fn text(kind: u64, i: u64) -> String {
    match kind {
        0 => format!("error {}", i),
        1 => format!("%s%n {} 100%", i),
        2 => format!("zero\0byte {}", i),
        3 => String::new(),
        4 => format!("two\nlines {}", i),
        5 => format!("\u{fffd}\u{e9} {}", i),
        _ => format!("{} {}", "long ".repeat(1500), i),
    }
}

pub fn take() -> Vec<Rec> {
    std::mem::take(&mut drv().recs)
}
/// Calls that reached a method (drops are no calls).
pub fn calls() -> Vec<Rec> {
    take().into_iter().filter(|r| r.method != DROP).collect()
}

pub fn show(r: &[Rec]) -> String {
    r.iter().map(|r| format!("{}#{}({} bytes, {}, {})", METHODS[r.method as usize], r.inst, r.data.len(), r.a, r.b)).collect::<Vec<_>>().join(" ")
}

pub fn print(error: bool, how: u32, b: &[u8]) -> i64 {
    let wd = w();
    wd.active = true;
    let r = unsafe { (api().print)(error, how, b.as_ptr(), b.len()) };
    wd.active = false;
    r
}

pub struct Map {
    m: *mut libc::c_void,
    buf: Vec<u8>,
    _a: Option<Arr>,
}
impl Map {
    pub fn new(l: Option<&[Vec<u8>]>) -> Map {
        let a = l.map(arr);
        let size = l.map_or(0, |l| l.iter().map(|e| e.len()).sum::<usize>());
        let p = a.as_ref().map_or(std::ptr::null(), |a| a.p.as_ptr());
        Map { m: unsafe { (api().map_new)(p) }, buf: vec![0; (1 << 14).max(4 * size)], _a: a }
    }
    /// the text, or -1 missing, -2 invalid, -3 none, -4 panic, -5 other
    pub fn get(&mut self, ty: u32, key: &[u8]) -> Result<Vec<u8>, i64> {
        let r = unsafe { (api().map_get)(self.m, ty, key.as_ptr(), key.len(), self.buf.as_mut_ptr(), self.buf.len()) };
        w().total_steps += 1;
        w().leave(&Op::new("get", Cls::None).arg(ty as u64).len(key.len()), r, 0, false);
        if r >= 0 { Ok(self.buf[..r as usize].to_vec()) } else { Err(r) }
    }
}
impl Drop for Map {
    fn drop(&mut self) {
        unsafe { (api().map_free)(self.m) }
    }
}

/// What an error and its causes look like on the error channel: an optional
/// empty line, then one line each.
pub fn check_reported(name: &str, lines: &[String]) -> Result<(), String> {
    let got = printed(CONV_ERROR);
    let mut want: Vec<u8> = vec![];
    for l in lines {
        want.extend(format!("{}: {}\n", name, l).bytes());
    }
    let g: &[u8] = if got.first() == Some(&b'\n') { &got[1..] } else { &got };
    if g != &want[..] {
        return Err(format!("reported {:?}, not {:?}", s(&got), s(&want)));
    }
    let other = printed(CONV_INFO);
    check(other.is_empty(), || format!("an error was reported as information: {:?}", s(&other)))?;
    check(w().printed.iter().all(|p| !p.bad), || "printf was given a format its arguments do not fit".into())
}
