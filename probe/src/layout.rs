//! Where the bindings put things.

use std::fmt::Write;

#[allow(dead_code, non_camel_case_types, non_upper_case_globals, non_snake_case, deref_nullptr, unused)]
mod x86_64 {
    include!("/repo/sudo_plugin-sys/src/bindings/sudo_plugin.x86-64.rs");
}
#[allow(dead_code, non_camel_case_types, non_upper_case_globals, non_snake_case, deref_nullptr, unused)]
mod aarch64 {
    include!("/repo/sudo_plugin-sys/src/bindings/sudo_plugin.aarch64.rs");
}
#[allow(dead_code, non_camel_case_types, non_upper_case_globals, non_snake_case, deref_nullptr, unused)]
mod x86 {
    include!("/repo/sudo_plugin-sys/src/bindings/sudo_plugin.x86.rs");
}

fn tn<T>(_: *const T) -> &'static str {
    std::any::type_name::<T>()
}
fn sz<T>(_: *const T) -> usize {
    std::mem::size_of::<T>()
}

macro_rules! lay {
    ($o:ident, $m:ident, $n:literal, $s:ident: $($f:ident)*) => {{
        let u = std::mem::MaybeUninit::<$m::$s>::uninit();
        let p = u.as_ptr();
        let _ = writeln!($o, "{}|{}|size|{}", $n, stringify!($s), std::mem::size_of::<$m::$s>());
        $( #[allow(unused_unsafe)] unsafe {
            let f = std::ptr::addr_of!((*p).$f);
            let _ = writeln!($o, "{}|{}|{}|{}|{}|{}", $n, stringify!($s), stringify!($f), f as usize - p as usize, sz(f), tn(f));
        } )*
    }};
}

macro_rules! all {
    ($o:ident, $m:ident, $n:literal) => {
        lay!($o, $m, $n, policy_plugin: type_ version open close show_version check_policy list validate invalidate init_session register_hooks deregister_hooks event_alloc);
        lay!($o, $m, $n, io_plugin: type_ version open close show_version log_ttyin log_ttyout log_stdin log_stdout log_stderr register_hooks deregister_hooks change_winsize log_suspend event_alloc);
        lay!($o, $m, $n, audit_plugin: type_ version open close accept reject error show_version register_hooks deregister_hooks event_alloc);
        lay!($o, $m, $n, approval_plugin: type_ version open close check show_version);
        lay!($o, $m, $n, sudo_conv_message: msg_type timeout msg);
        lay!($o, $m, $n, sudo_conv_reply: reply);
        lay!($o, $m, $n, sudo_conv_callback: version closure on_suspend on_resume);
        lay!($o, $m, $n, sudo_hook: hook_version hook_type hook_fn closure);
        lay!($o, $m, $n, sudo_plugin_event: set add del pending fd setbase loopbreak free);
        lay!($o, $m, $n, sudoers_group_plugin: version init cleanup query);
    };
}

pub fn layout() -> String {
    use sudo_plugin_sys as used;
    let mut o = String::new();
    all!(o, used, "used");
    all!(o, x86_64, "x86_64");
    all!(o, aarch64, "aarch64");
    all!(o, x86, "x86");
    o
}

macro_rules! consts {
    ($o:ident, $m:ident, $n:literal: $($c:ident)*) => { $( let _ = writeln!($o, "{}|{}|{}", $n, stringify!($c), $m::$c as i64); )* };
}
macro_rules! allc {
    ($o:ident, $m:ident, $n:literal) => {
        consts!($o, $m, $n: SUDO_API_VERSION_MAJOR SUDO_API_VERSION_MINOR SUDO_CONV_PROMPT_ECHO_OFF SUDO_CONV_PROMPT_ECHO_ON
            SUDO_CONV_ERROR_MSG SUDO_CONV_INFO_MSG SUDO_CONV_PROMPT_MASK SUDO_CONV_PROMPT_ECHO_OK SUDO_CONV_PREFER_TTY
            SUDO_CONV_REPL_MAX SUDO_CONV_CALLBACK_VERSION_MAJOR SUDO_CONV_CALLBACK_VERSION_MINOR SUDO_HOOK_VERSION_MAJOR
            SUDO_HOOK_VERSION_MINOR SUDO_HOOK_RET_ERROR SUDO_HOOK_RET_NEXT SUDO_HOOK_RET_STOP SUDO_HOOK_SETENV
            SUDO_HOOK_UNSETENV SUDO_HOOK_PUTENV SUDO_HOOK_GETENV SUDO_PLUGIN_EV_TIMEOUT SUDO_PLUGIN_EV_READ
            SUDO_PLUGIN_EV_WRITE SUDO_PLUGIN_EV_PERSIST SUDO_PLUGIN_EV_SIGNAL SUDO_POLICY_PLUGIN SUDO_IO_PLUGIN
            SUDO_PLUGIN_NO_STATUS SUDO_PLUGIN_WAIT_STATUS SUDO_PLUGIN_EXEC_ERROR SUDO_PLUGIN_SUDO_ERROR SUDO_AUDIT_PLUGIN
            SUDO_APPROVAL_PLUGIN GROUP_API_VERSION_MAJOR GROUP_API_VERSION_MINOR);
    };
}

pub fn constants() -> String {
    use sudo_plugin_sys as used;
    let mut o = String::new();
    allc!(o, used, "used");
    allc!(o, x86_64, "x86_64");
    allc!(o, aarch64, "aarch64");
    allc!(o, x86, "x86");
    let _ = writeln!(o, "used|SUDO_API_VERSION|{}", used::SUDO_API_VERSION);
    o
}

unsafe extern "C" fn mark<const N: i32>() -> i32 {
    N
}

macro_rules! marked {
    ($s:ident, $($f:ident $n:literal)*) => {{
        let mut p = sudo_plugin_sys::$s::empty();
        $( p.$f = std::mem::transmute(mark::<$n> as usize); )*
        p
    }};
}

/// A plugin of the kind, empty or with a function in every slot that
/// returns the number of the slot's name.
pub unsafe fn table(kind: u32, m: bool) -> *mut u8 {
    use sudo_plugin_sys::*;
    fn put<T>(v: T) -> *mut u8 {
        Box::into_raw(Box::new(v)) as *mut u8
    }
    match (kind, m) {
        (1, true) => put(marked!(policy_plugin, open 100 close 101 show_version 102 check_policy 103 list 104 validate 105 invalidate 106 init_session 107 register_hooks 108 deregister_hooks 109 event_alloc 110)),
        (2, true) => put(marked!(io_plugin, open 200 close 201 show_version 202 log_ttyin 203 log_ttyout 204 log_stdin 205 log_stdout 206 log_stderr 207 register_hooks 208 deregister_hooks 209 change_winsize 210 log_suspend 211 event_alloc 212)),
        (3, true) => put(marked!(audit_plugin, open 300 close 301 accept 302 reject 303 error 304 show_version 305 register_hooks 306 deregister_hooks 307 event_alloc 308)),
        (4, true) => put(marked!(approval_plugin, open 400 close 401 check 402 show_version 403)),
        (1, _) => put(policy_plugin::empty()),
        (2, _) => put(io_plugin::empty()),
        (3, _) => put(audit_plugin::empty()),
        _ => put(approval_plugin::empty()),
    }
}
