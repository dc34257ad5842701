//! Everything a plugin can learn about its session, as text.

use std::collections::HashSet;
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;
use sudo_plugin::errors::Error;
use sudo_plugin::options::settings::NetAddr;
use sudo_plugin::options::OptionMap;
use sudo_plugin::plugin::IoEnv;

pub trait Show {
    fn show(&self, o: &mut Vec<u8>);
}
macro_rules! num {
    ($($t:ty)*) => { $(impl Show for $t { fn show(&self, o: &mut Vec<u8>) { o.extend(self.to_string().bytes()) } })* };
}
num!(bool i8 u8 i16 u16 i32 u32 i64 u64);
fn bytes(b: &[u8], o: &mut Vec<u8>) {
    for c in b {
        match c {
            b'\n' => o.extend(b"\\n"),
            b'\\' => o.extend(b"\\\\"),
            c => o.push(*c),
        }
    }
}
impl Show for String {
    fn show(&self, o: &mut Vec<u8>) {
        bytes(self.as_bytes(), o)
    }
}
impl Show for str {
    fn show(&self, o: &mut Vec<u8>) {
        bytes(self.as_bytes(), o)
    }
}
impl Show for PathBuf {
    fn show(&self, o: &mut Vec<u8>) {
        bytes(self.as_os_str().as_bytes(), o)
    }
}
impl Show for NetAddr {
    fn show(&self, o: &mut Vec<u8>) {
        o.extend(format!("{}/{}", self.addr, self.mask).bytes())
    }
}
impl<T: Show> Show for Option<T> {
    fn show(&self, o: &mut Vec<u8>) {
        match self {
            None => o.push(b'-'),
            Some(v) => {
                o.push(b'+');
                v.show(o)
            }
        }
    }
}
impl<T: Show> Show for Vec<T> {
    fn show(&self, o: &mut Vec<u8>) {
        o.push(b'[');
        for (i, v) in self.iter().enumerate() {
            if i > 0 {
                o.push(b';')
            }
            v.show(o)
        }
        o.push(b']');
    }
}
impl<T: Show + Ord> Show for HashSet<T> {
    fn show(&self, o: &mut Vec<u8>) {
        let mut v: Vec<&T> = self.iter().collect();
        v.sort();
        o.push(b'[');
        for (i, v) in v.iter().enumerate() {
            if i > 0 {
                o.push(b';')
            }
            v.show(o)
        }
        o.push(b']');
    }
}

macro_rules! fields {
    ($o:ident, $v:expr, $pre:literal, $($f:ident)*) => { $(
        $o.extend(concat!($pre, ".", stringify!($f), "=").bytes());
        $v.$f.show(&mut $o);
        $o.push(b'\n');
    )* };
}

pub fn dump(e: &IoEnv) -> Vec<u8> {
    let mut o = Vec::with_capacity(2048);
    fields!(o, e.settings, "settings", bsd_auth_type close_from debug_flags debug_level ignore_ticket implied_shell
        login_class login_shell max_groups network_addrs noninteractive plugin_dir plugin_path preserve_environment
        preserve_groups progname prompt remote_host run_shell runas_group runas_user selinux_role selinux_type
        set_home sudoedit timeout);
    fields!(o, e.user_info, "user_info", cols cwd egid euid gid groups host lines pgid pid ppid sid tcpgid tty uid umask user);
    fields!(o, e.command_info, "command_info", chroot close_from command cwd exec_background exec_fd iolog_compress
        iolog_group iolog_mode iolog_path iolog_stdin iolog_stdout iolog_stderr iolog_ttyin iolog_ttyout iolog_user
        login_class nice noexec preserve_fds preserve_groups runas_egid runas_euid runas_gid runas_groups runas_uid
        selinux_role selinux_type set_utmp sudoedit sudoedit_checkdir sudoedit_follow timeout umask umask_override
        use_pty utmp_user);
    o.extend(b"cwd()=");
    e.cwd().show(&mut o);
    o.extend(b"\nrunas_gids()=");
    e.runas_gids().show(&mut o);
    o.extend(format!("\nplugin_name={}\nplugin_version={}\napi_version={}\ncmdline=[", e.plugin_name, e.plugin_version, e.api_version).bytes());
    for (i, a) in e.cmdline.iter().enumerate() {
        if i > 0 {
            o.push(b';')
        }
        bytes(a.as_bytes(), &mut o);
    }
    o.extend(b"]\n");
    for (n, m) in [
        ("settings.raw", &e.settings.raw),
        ("user_info.raw", &e.user_info.raw),
        ("command_info.raw", &e.command_info.raw),
        ("user_env", &e.user_env),
        ("plugin_options", &e.plugin_options),
    ] {
        o.extend(format!("{}[mark]=", n).bytes());
        match m.get_bytes(b"mark") {
            None => o.push(b'-'),
            Some(v) => {
                o.push(b'+');
                bytes(v, &mut o)
            }
        }
        o.push(b'\n');
    }
    o
}

fn one<T: Show>(r: Result<T, Error>, key: &str) -> Result<Vec<u8>, (i64, Vec<u8>)> {
    match r {
        Ok(v) => {
            let mut o = vec![];
            v.show(&mut o);
            Ok(o)
        }
        Err(Error::OptionMissing { key: k }) => Err((if k == key { -1 } else { -5 }, k.into_bytes())),
        Err(Error::OptionInvalid { key: k, value }) => Err((if k == key { -2 } else { -5 }, value.into_bytes())),
        Err(e) => Err((-5, e.to_string().into_bytes())),
    }
}

pub fn get(m: &OptionMap, ty: u32, key: &[u8]) -> Result<Vec<u8>, (i64, Vec<u8>)> {
    if ty == 1 {
        return match m.get_bytes(key) {
            None => Err((-3, vec![])),
            Some(v) => {
                let mut o = vec![];
                bytes(v, &mut o);
                Ok(o)
            }
        };
    }
    let key = match std::str::from_utf8(key) {
        Ok(k) => k,
        Err(_) => return Err((-9, vec![])),
    };
    macro_rules! g {
        ($t:ty) => {
            one(m.get::<$t>(key), key)
        };
    }
    match ty {
        0 => match m.get_str(key) {
            None => Err((-3, vec![])),
            Some(v) => {
                let mut o = vec![];
                v.show(&mut o);
                Ok(o)
            }
        },
        2 => g!(bool),
        3 => g!(i8),
        4 => g!(u8),
        5 => g!(i16),
        6 => g!(u16),
        7 => g!(i32),
        8 => g!(u32),
        9 => g!(i64),
        10 => g!(u64),
        11 => g!(String),
        12 => g!(PathBuf),
        13 => g!(Vec<i8>),
        14 => g!(Vec<u8>),
        15 => g!(Vec<i16>),
        16 => g!(Vec<u16>),
        17 => g!(Vec<i32>),
        18 => g!(Vec<u32>),
        19 => g!(Vec<i64>),
        20 => g!(Vec<u64>),
        21 => g!(Vec<PathBuf>),
        22 => g!(HashSet<u8>),
        23 => g!(HashSet<i32>),
        24 => g!(Vec<NetAddr>),
        _ => Err((-9, vec![])),
    }
}
