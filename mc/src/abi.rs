//! sudo's plugin interface, written down independently of the repository's
//! bindings (from sudo_plugin.h / the sudo_plugin manual).
#![allow(dead_code)]

use libc::{c_char, c_int, c_uint, c_void};

pub type Strs = *const *const c_char;
pub type ErrStr = *mut *const c_char;
pub type Printf = Option<unsafe extern "C" fn(c_int, *const c_char, usize, usize, usize, usize, usize, usize) -> c_int>;
pub type Conv = Option<unsafe extern "C" fn(c_int, *const c_void, *mut c_void, *mut c_void) -> c_int>;

pub type IoOpen = unsafe extern "C" fn(c_uint, Conv, Printf, Strs, Strs, Strs, c_int, Strs, Strs, Strs, ErrStr) -> c_int;
pub type Close = unsafe extern "C" fn(c_int, c_int);
pub type ShowVersion = unsafe extern "C" fn(c_int) -> c_int;
pub type Log = unsafe extern "C" fn(*const c_char, c_uint, ErrStr) -> c_int;
pub type Winsize = unsafe extern "C" fn(c_uint, c_uint, ErrStr) -> c_int;

#[repr(C)]
pub struct IoPlugin {
    pub type_: c_uint,
    pub version: c_uint,
    pub open: Option<IoOpen>,
    pub close: Option<Close>,
    pub show_version: Option<ShowVersion>,
    pub log_ttyin: Option<Log>,
    pub log_ttyout: Option<Log>,
    pub log_stdin: Option<Log>,
    pub log_stdout: Option<Log>,
    pub log_stderr: Option<Log>,
    pub register_hooks: Option<unsafe extern "C" fn()>,
    pub deregister_hooks: Option<unsafe extern "C" fn()>,
    pub change_winsize: Option<Winsize>,
    pub log_suspend: Option<unsafe extern "C" fn()>,
    pub event_alloc: Option<unsafe extern "C" fn()>,
}

pub type ApprOpen = unsafe extern "C" fn(c_uint, Conv, Printf, Strs, Strs, c_int, Strs, Strs, Strs, ErrStr) -> c_int;

#[repr(C)]
pub struct ApprovalPlugin {
    pub type_: c_uint,
    pub version: c_uint,
    pub open: Option<ApprOpen>,
    pub close: Option<unsafe extern "C" fn()>,
    pub check: Option<unsafe extern "C" fn(Strs, Strs, Strs, ErrStr) -> c_int>,
    pub show_version: Option<ShowVersion>,
}

pub const CONV_ERROR: c_int = 3;
pub const CONV_INFO: c_int = 4;

pub const fn mkversion(major: u32, minor: u32) -> u32 {
    major * 65536 + minor
}
