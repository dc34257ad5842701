//! Plugins written with sudo_plugin's macro whose every decision is taken,
//! and whose every observation is received, by the model checker (`mc`).
#![allow(static_mut_refs, non_upper_case_globals, clippy::all)]

mod dump;
mod layout;

use std::ffi::CStr;
use std::fmt;
use std::io::Write;
use std::os::raw::c_char;
use std::panic::{catch_unwind, AssertUnwindSafe};

use sudo_plugin::core::{LogStatus, OpenStatus};
use sudo_plugin::errors::Error;
use sudo_plugin::options::OptionMap;
use sudo_plugin::plugin::{IoEnv, IoPlugin};
use sudo_plugin::sudo_io_plugin;

/// plugin, instance, method, data, numbers -> what the method is to do
type Driver = unsafe extern "C" fn(u32, u64, u32, *const u8, usize, i64, i64) -> u64;

static mut DRIVER: Option<Driver> = None;
static mut DUMP: bool = false;
static mut NEXT: u64 = 0;
static mut ENV: Option<&'static IoEnv> = None;
static mut FROM: (u8, u8) = (2, 1);

#[no_mangle]
pub unsafe extern "C" fn probe_driver(d: Driver, dump: bool, from_open: u8, from_log: u8) {
    DRIVER = Some(d);
    DUMP = dump;
    FROM = (from_open, from_log);
}

fn tell(p: u32, inst: u64, m: u32, data: &[u8], a: i64, b: i64) -> u64 {
    unsafe { DRIVER.map_or(0, |d| d(p, inst, m, data.as_ptr(), data.len(), a, b)) }
}

fn open_status(k: u8) -> OpenStatus {
    match k {
        0 => OpenStatus::Ok,
        1 => OpenStatus::Disable,
        2 => OpenStatus::Deny,
        _ => OpenStatus::Usage,
    }
}
fn log_status(k: u8) -> LogStatus {
    match k {
        0 => LogStatus::Ok,
        1 => LogStatus::Deny,
        _ => LogStatus::Disable,
    }
}

/// The text of the i-th error of a chain.
fn text(kind: u8, i: u8) -> String {
    match kind {
        0 => format!("error {}", i),
        1 => format!("%s%n {} 100%", i),
        2 => format!("zero\0byte {}", i),
        3 => String::new(),
        4 => format!("two\nlines {}", i),
        5 => format!("\u{fffd}\u{e9} {}", i),
        _ => format!("{} {}", "long ".repeat(1500), i),
    }
}

pub struct PErr {
    open: u8,
    log: u8,
    msg: String,
    fail: u8,
    next: Option<Box<PErr>>,
}

impl fmt::Debug for PErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("DEBUG FORM OF AN ERROR")
    }
}
impl fmt::Display for PErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.fail == 1 {
            panic!("Display panics");
        }
        f.write_str(&self.msg)
    }
}
impl std::error::Error for PErr {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.next.as_ref().map(|n| &**n as _)
    }
}
impl From<Error> for PErr {
    fn from(e: Error) -> PErr {
        let (open, log) = unsafe { FROM };
        PErr { open, log, msg: e.to_string(), fail: 0, next: None }
    }
}
impl From<PErr> for OpenStatus {
    fn from(e: PErr) -> OpenStatus {
        if e.fail == 2 {
            panic!("conversion panics");
        }
        open_status(e.open)
    }
}
impl From<PErr> for LogStatus {
    fn from(e: PErr) -> LogStatus {
        if e.fail == 2 {
            panic!("conversion panics");
        }
        log_status(e.log)
    }
}

struct Bomb;
impl Drop for Bomb {
    fn drop(&mut self) {
        panic!("the payload panics when dropped");
    }
}

/// kind | status << 8 | causes << 16 | text << 24
fn act(code: u64) -> Result<(), PErr> {
    let (kind, status, n, t) = (code as u8, (code >> 8) as u8, (code >> 16) as u8, (code >> 24) as u8);
    let chain = |fail0: u8, fail_last: u8| {
        let mut e: Option<Box<PErr>> = None;
        for i in (0..=n).rev() {
            let fail = if i == 0 { fail0 } else if i == n { fail_last } else { 0 };
            e = Some(Box::new(PErr { open: status, log: status, msg: text(t, i), fail, next: e }));
        }
        *e.unwrap()
    };
    match kind {
        0 => Ok(()),
        1 => Err(chain(0, 0)),
        2 => panic!("a static message"),
        3 => panic!("a formatted message {}", code),
        4 => std::panic::panic_any(42u32),
        5 => std::panic::panic_any(Bomb),
        6 => Err(chain(1, 0)),
        7 => Err(chain(0, 1)),
        8 => Err(chain(2, 0)),
        9 => {
            let v: Vec<u8> = vec![];
            let i = std::hint::black_box(7usize);
            let _ = std::hint::black_box(v[i]);
            Ok(())
        }
        _ => Ok(()),
    }
}

fn tag(env: &IoEnv) -> i64 {
    env.plugin_options.get_bytes(b"tag").and_then(|t| std::str::from_utf8(t).ok()).and_then(|t| t.parse().ok()).unwrap_or(-1)
}

macro_rules! plugin {
    ($ty:ident, $num:expr, $name:expr, $ignore:expr) => {
        pub struct $ty {
            inst: u64,
            env: &'static IoEnv,
        }
        impl IoPlugin for $ty {
            type Error = PErr;
            const NAME: &'static str = $name;
            const VERSION: &'static str = "9.8.7";
            const IGNORE_IOLOG_HINTS: bool = $ignore;

            fn open(env: &'static IoEnv) -> Result<Self, PErr> {
                let d = if unsafe { DUMP } { dump::dump(env) } else { vec![] };
                unsafe {
                    NEXT += 1;
                    ENV = Some(env);
                }
                let inst = unsafe { NEXT };
                act(tell($num, inst, 0, &d, tag(env), 0))?;
                Ok($ty { inst, env })
            }
            fn close(self, a: i32, b: i32) {
                let c = tell($num, self.inst, 1, &[], a as i64, b as i64);
                let _ = act(c);
            }
            fn show_version(env: &IoEnv, verbose: bool) {
                let c = tell($num, 0, 2, &[], verbose as i64, tag(env));
                let _ = act(c);
            }
            fn log_ttyin(&self, b: &[u8]) -> Result<(), PErr> {
                act(tell($num, self.inst, 3, b, tag(self.env), 0))
            }
            fn log_ttyout(&self, b: &[u8]) -> Result<(), PErr> {
                act(tell($num, self.inst, 4, b, tag(self.env), 0))
            }
            fn log_stdin(&self, b: &[u8]) -> Result<(), PErr> {
                act(tell($num, self.inst, 5, b, tag(self.env), 0))
            }
            fn log_stdout(&self, b: &[u8]) -> Result<(), PErr> {
                act(tell($num, self.inst, 6, b, tag(self.env), 0))
            }
            fn log_stderr(&self, b: &[u8]) -> Result<(), PErr> {
                act(tell($num, self.inst, 7, b, tag(self.env), 0))
            }
            fn change_winsize(&self, l: u64, c: u64) -> Result<(), PErr> {
                act(tell($num, self.inst, 8, &[], l as i64, c as i64))
            }
        }
        impl Drop for $ty {
            fn drop(&mut self) {
                let c = tell($num, self.inst, 9, &[], tag(self.env), 0);
                let _ = act(c);
            }
        }
    };
}

plugin!(A, 0, "probe-a", false);
plugin!(B, 1, "b %s\u{e9}", true);

/// Nothing but what the trait itself provides.
pub struct C;
impl IoPlugin for C {
    type Error = Error;
    const NAME: &'static str = "plain";
    const VERSION: &'static str = "1.2.3-c";

    fn open(env: &'static IoEnv) -> Result<Self, Error> {
        unsafe { ENV = Some(env) };
        match tell(2, 0, 0, &[], tag(env), 0) {
            0 => Ok(C),
            1 => Err(Error::Other("other".into())),
            2 => Err(Error::UncaughtPanic),
            _ => panic!("plain"),
        }
    }
    fn log_ttyout(&self, b: &[u8]) -> Result<(), Error> {
        match tell(2, 0, 4, b, 0, 0) {
            0 => Ok(()),
            1 => Err(Error::Other("other".into())),
            2 => Err(Error::UncaughtPanic),
            _ => panic!("plain"),
        }
    }
}

sudo_io_plugin! { probe_a: A }
sudo_io_plugin! { probe_b: B }
sudo_io_plugin! { probe_c: C }

// ---------------------------------------------------------------- printing

#[derive(Debug)]
struct Plain(String);
impl fmt::Display for Plain {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Plain {}

/// 0.. as the facility answered, -1 an error, -4 a panic
#[no_mangle]
pub unsafe extern "C" fn probe_print(error: bool, how: u32, p: *const u8, n: usize) -> i64 {
    let b = std::slice::from_raw_parts(p, n);
    let env = match ENV {
        Some(e) => e,
        None => return -9,
    };
    catch_unwind(AssertUnwindSafe(|| {
        let mut f = if error { env.stderr() } else { env.stdout() };
        let s = || String::from_utf8_lossy(b).into_owned();
        match how {
            0 => f.write(b).map_or(-1, |n| n as i64),
            1 => f.write_all(b).map_or(-1, |_| 0),
            2 => f.write_line(b).map_or(-1, |_| 0),
            3 => f.write_error(&Plain(s())).map_or(-1, |_| 0),
            4 => write!(f, "{}", s()).map_or(-1, |_| 0),
            _ => f.flush().map_or(-1, |_| 0),
        }
    }))
    .unwrap_or(-4)
}

// -------------------------------------------------------------- option maps

#[no_mangle]
pub unsafe extern "C" fn probe_map_new(p: *const *const c_char) -> *mut OptionMap {
    Box::into_raw(Box::new(OptionMap::from_raw(p)))
}
#[no_mangle]
pub unsafe extern "C" fn probe_map_free(m: *mut OptionMap) {
    drop(Box::from_raw(m))
}

/// Reads `key` as the type `ty`; the answer, as text, goes to `out`.
/// 0.. its length, -1 missing, -2 invalid, -3 none, -4 panic, -5 another
/// error than these
#[no_mangle]
pub unsafe extern "C" fn probe_map_get(m: *const OptionMap, ty: u32, key: *const u8, klen: usize, out: *mut u8, cap: usize) -> i64 {
    let key = std::slice::from_raw_parts(key, klen);
    let r = catch_unwind(AssertUnwindSafe(|| dump::get(&*m, ty, key)));
    let (code, text) = match r {
        Ok(Ok(t)) => (0, t),
        Ok(Err((c, t))) => (c, t),
        Err(_) => (-4, vec![]),
    };
    let n = text.len().min(cap - 1);
    std::ptr::copy_nonoverlapping(text.as_ptr(), out, n);
    *out.add(n) = 0;
    if code == 0 { n as i64 } else { code }
}

// ----------------------------------------------------------------- versions

#[no_mangle]
pub extern "C" fn probe_mk(a: u32, b: u32) -> u32 {
    sudo_plugin_sys::sudo_api_mkversion(a, b)
}
#[no_mangle]
pub extern "C" fn probe_major(v: u32) -> u32 {
    sudo_plugin_sys::sudo_api_version_get_major(v)
}
#[no_mangle]
pub extern "C" fn probe_minor(v: u32) -> u32 {
    sudo_plugin_sys::sudo_api_version_get_minor(v)
}

/// For every version in lo..=hi: packing what was unpacked gives it back.
/// Returns the first for which it does not, or 1 << 32.
#[no_mangle]
pub extern "C" fn probe_version_loop(lo: u32, hi: u32) -> u64 {
    let mut v = lo;
    loop {
        let a = sudo_plugin_sys::sudo_api_version_get_major(v);
        let b = sudo_plugin_sys::sudo_api_version_get_minor(v);
        if a != v / 65536 || b != v % 65536 || sudo_plugin_sys::sudo_api_mkversion(a, b) != v {
            return v as u64;
        }
        if v == hi {
            return 1 << 32;
        }
        v += 1;
    }
}

/// The version an open plugin was told, packed by the library; or -1.
#[no_mangle]
pub unsafe extern "C" fn probe_env_version() -> i64 {
    ENV.map_or(-1, |e| {
        let v: std::os::raw::c_uint = e.api_version.into();
        v as i64
    })
}

// ------------------------------------------------------------------- tables

#[no_mangle]
pub unsafe extern "C" fn probe_text(which: u32) -> *const c_char {
    static mut T: [Option<Vec<u8>>; 2] = [None, None];
    let k = which as usize & 1;
    if T[k].is_none() {
        let mut s = if k == 0 { layout::layout() } else { layout::constants() };
        s.push('\0');
        T[k] = Some(s.into_bytes());
    }
    CStr::from_bytes_with_nul_unchecked(T[k].as_ref().unwrap()).as_ptr()
}

#[no_mangle]
pub unsafe extern "C" fn probe_table(kind: u32, marked: bool) -> *mut u8 {
    layout::table(kind, marked)
}
