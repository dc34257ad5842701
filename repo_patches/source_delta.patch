From dbcbe54fcc89c070755a5244e79cdd9bf4b35eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 01/20] fix: never use the message as printf's format

Text containing a percent sign was interpreted by sudo's printf, reading
arguments that were never passed.
---
 sudo_plugin/src/output/print_facility.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/output/print_facility.rs b/sudo_plugin/src/output/print_facility.rs
index 0c19d59..41b48a8 100644
--- a/sudo_plugin/src/output/print_facility.rs
+++ b/sudo_plugin/src/output/print_facility.rs
@@ -109,7 +109,10 @@ impl Write for PrintFacility {
         let count = unsafe {
             // TODO: level should be bitflags when we start implementing the
             // full conversation interface
-            (printf)(self.level as _, message.as_ptr())
+            //
+            // the message is an argument and never the format itself,
+            // since it may contain `%`
+            (printf)(self.level as _, b"%s\0".as_ptr().cast(), message.as_ptr())
         };
 
         #[allow(clippy::cast_sign_loss)]
-- 
2.43.0


From e5c06c45a43f093ed5718e5daaff8b86ca6e350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 02/20] fix: walk an error's chain of causes instead of
 repeating its first one forever

The shadowed binding left the loop's condition unchanged, so reporting an
error with a source never ended.
---
 sudo_plugin/src/output/print_facility.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/output/print_facility.rs b/sudo_plugin/src/output/print_facility.rs
index 41b48a8..804e95a 100644
--- a/sudo_plugin/src/output/print_facility.rs
+++ b/sudo_plugin/src/output/print_facility.rs
@@ -88,8 +88,12 @@ impl PrintFacility {
         // stabilized
         self.write_line(format!("{}", error).as_bytes())?;
 
-        while let Some(error) = error.source() {
+        let mut source = error.source();
+
+        while let Some(error) = source {
             self.write_line(format!("{}", error).as_bytes())?;
+
+            source = error.source();
         }
 
         Ok(())
-- 
2.43.0


From 36ff87e2bcbf4217bca1dfdfb9fd2f8806c09f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 03/20] fix: don't panic on a network address without a netmask

---
 sudo_plugin/src/options/settings.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index 4115411..d71da30 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -317,18 +317,13 @@ pub struct NetAddr {
 impl FromSudoOption for NetAddr {
     type Err = AddrParseError;
 
-    // indexing into an array can panic, but there's no cleaner way in
-    // rust to split a byte array on a delimiter, and the code below
-    // selects the midpoint such that it's guaranteed to be within the
-    // slice
+    // without a separator the mask is empty, which isn't a valid address
+    // and so is a parse error
     fn from_sudo_option(s: &str) -> ::std::result::Result<Self, Self::Err> {
-        let bytes = s.as_bytes();
-        let mid   = bytes.iter()
-            .position(|b| *b == b'/' )
-            .unwrap_or_else(|| bytes.len());
+        let mut parts = s.splitn(2, '/');
 
-        let addr = s[        .. mid].parse()?;
-        let mask = s[mid + 1 ..    ].parse()?;
+        let addr = parts.next().unwrap_or_default().parse()?;
+        let mask = parts.next().unwrap_or_default().parse()?;
 
         Ok(Self {
             addr,
-- 
2.43.0


From baf0b85207f189894326214155a9a7954af30cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 04/20] fix: don't take a command whose path isn't UTF-8 for no
 command at all

Such a command was treated like `sudo -V` and ran without a pair.
---
 sudo_plugin/src/options/command_info.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index 9c56cb9..8ec178c 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -16,6 +16,8 @@ use crate::errors::{Result, Error};
 use crate::options::OptionMap;
 
 use std::convert::TryFrom;
+use std::ffi::OsStr;
+use std::os::unix::ffi::OsStrExt;
 use std::os::unix::io::RawFd;
 use std::path::PathBuf;
 
@@ -248,7 +250,12 @@ impl TryFrom<OptionMap> for CommandInfo {
         Ok(Self {
             // in the event that the `-V` flag is passed to `sudo`,
             // there's no command
-            command:       value.get("command").unwrap_or_default(),
+            //
+            // paths needn't be UTF-8, and a command mustn't be mistaken
+            // for an absent one because of that
+            command:       value.get_bytes(b"command")
+                .map(|command| OsStr::from_bytes(command).into())
+                .unwrap_or_default(),
             runas_gid,
             runas_uid,
             runas_egid:    value.get("runas_egid").unwrap_or(runas_gid),
-- 
2.43.0


From 5db7231d9e66e38db20684a01f60b155f0e9da77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 05/20] fix: parse command_info's umask as the octal number it
 is

---
 sudo_plugin/src/options/command_info.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index 8ec178c..faeb3b0 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -260,7 +260,9 @@ impl TryFrom<OptionMap> for CommandInfo {
             runas_uid,
             runas_egid:    value.get("runas_egid").unwrap_or(runas_gid),
             runas_euid:    value.get("runas_euid").unwrap_or(runas_uid),
-            umask:         value.get("umask").unwrap_or(0o7777),
+            umask:         value.get_str("umask")
+                .and_then(|umask| mode_t::from_str_radix(umask, 8).ok())
+                .unwrap_or(0o7777),
 
             chroot:            value.get("chroot")            .ok(),
             close_from:        value.get("closefrom")         .ok(),
-- 
2.43.0


From 9a5886d54d0d13cd95fc9381df86505452d63b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 06/20] fix: judge every open on its own environment

An open following one that was refused (or panicked) reused the refused
one's environment.
---
 sudo_plugin/src/plugin/io_state.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sudo_plugin/src/plugin/io_state.rs b/sudo_plugin/src/plugin/io_state.rs
index 6ef0188..0d7f75c 100644
--- a/sudo_plugin/src/plugin/io_state.rs
+++ b/sudo_plugin/src/plugin/io_state.rs
@@ -56,6 +56,13 @@ pub unsafe trait IoState<P: IoPlugin> {
         f:   F,
     ) -> OpenStatus {
         unsafe {
+            // an earlier attempt that was refused may have left its
+            // environment behind
+            //
+            // SAFETY: as in `drop`, the plugin must be dropped first
+            let _ = Self::io_plugin_mut().take();
+            let _ = Self::io_env_mut()   .take();
+
             let env    = Self::io_env_mut().get_or_insert(env);
             let plugin = f(env).map(|p| Self::io_plugin_mut().get_or_insert(p));
 
-- 
2.43.0


From 7df4705f9a3c8e9a8a599c0d0c1255261a745e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 07/20] fix: recognise an explicit group whose name isn't UTF-8

---
 sudo_pair/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index 6ac49e8..5b88559 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -549,7 +549,9 @@ impl SudoPair {
 
     // returns true if `-g` was specified
     fn is_sudoing_to_explicit_group(&self) -> bool {
-        self.env.settings.runas_group.is_some()
+        //
+        // the raw setting is used because the group's name needn't be UTF-8
+        self.env.settings.raw.get_bytes(b"runas_group").is_some()
     }
 
     fn socket_path(&self) -> PathBuf {
-- 
2.43.0


From 3535097d7bdc4c89f2b2ef3378b1f134ada42bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 08/20] fix: refuse redirected stdin and forward all output
 whatever the logging hints

With `Defaults log_output`, as the README recommends, iolog_stdin is unset
and redirected standard input was accepted in paired sessions.
---
 sudo_pair/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index 5b88559..0bf8ffa 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -111,6 +111,11 @@ impl IoPlugin for SudoPair {
 
     const NAME: &'static str = "sudo_pair";
 
+    // the policy's hints only decide whether a session must be paired
+    // (see `is_exempted_from_logging`); once it must, all of its output is
+    // shown to the pair and redirected input is always refused
+    const IGNORE_IOLOG_HINTS: bool = true;
+
     fn open(env: &'static IoEnv) -> Result<Self> {
         let mut slog = slog(Self::NAME, Self::VERSION);
 
-- 
2.43.0


From 7dfe9ac52240a0a5b69c3ea8e8a5bbf467d378b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 09/20] fix: read the -a flag's value from the key sudo passes
 it under

sudo names it `bsdauth_type`.
---
 sudo_plugin/src/options/settings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index d71da30..50452f4 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -279,7 +279,7 @@ impl TryFrom<OptionMap> for Settings {
             plugin_path: value.get("plugin_path")?,
             progname:    value.get("progname")?,
 
-            bsd_auth_type:        value.get("bsd_auth_type")       .ok(),
+            bsd_auth_type:        value.get("bsdauth_type")        .ok(),
             close_from:           value.get("closefrom")           .ok(),
             debug_flags:          value.get("debug_flags")         .ok(),
             debug_level:          value.get("debug_level")         .ok(),
-- 
2.43.0


From 326d23302f42acf04d803b2ebe13a05bef54a58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 10/20] fix: show the pair every flag sudo was given

Flags whose value isn't UTF-8, -h and -T were left out of the command shown
to the pair.
---
 sudo_plugin/src/options/settings.rs | 44 ++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index 50452f4..43a237a 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -174,6 +174,8 @@ impl Settings {
     pub fn flags(&self) -> Vec<Vec<u8>> {
         let mut flags: Vec<Vec<u8>> = vec![];
 
+        // the raw values are used because they needn't be UTF-8
+
         // `sudoedit` is set if the flag was provided *or* if sudo
         // was invoked as `sudoedit` directly; try our best to intrepret
         // this case, although we'll technically get it wrong in the
@@ -182,23 +184,23 @@ impl Settings {
             flags.push(b"--edit".to_vec());
         }
 
-        if let Some(ref runas_user) = self.runas_user {
+        if let Some(runas_user) = self.raw.get_bytes(b"runas_user") {
             let mut flag = b"--user ".to_vec();
-            flag.extend_from_slice(runas_user.as_bytes());
+            flag.extend_from_slice(runas_user);
 
             flags.push(flag);
         }
 
-        if let Some(ref runas_group) = self.runas_group {
+        if let Some(runas_group) = self.raw.get_bytes(b"runas_group") {
             let mut flag = b"--group ".to_vec();
-            flag.extend_from_slice(runas_group.as_bytes());
+            flag.extend_from_slice(runas_group);
 
             flags.push(flag);
         }
 
-        if let Some(ref prompt) = self.prompt {
+        if let Some(prompt) = self.raw.get_bytes(b"prompt") {
             let mut flag = b"--prompt ".to_vec();
-            flag.extend_from_slice(prompt.as_bytes());
+            flag.extend_from_slice(prompt);
 
             flags.push(flag);
         }
@@ -231,30 +233,30 @@ impl Settings {
             flags.push(b"--non-interactive".to_vec());
         }
 
-        if let Some(ref login_class) = self.login_class {
+        if let Some(login_class) = self.raw.get_bytes(b"login_class") {
             let mut flag = b"--login-class ".to_vec();
-            flag.extend_from_slice(login_class.as_bytes());
+            flag.extend_from_slice(login_class);
 
             flags.push(flag);
         }
 
-        if let Some(ref selinux_role) = self.selinux_role {
+        if let Some(selinux_role) = self.raw.get_bytes(b"selinux_role") {
             let mut flag = b"--role ".to_vec();
-            flag.extend_from_slice(selinux_role.as_bytes());
+            flag.extend_from_slice(selinux_role);
 
             flags.push(flag);
         }
 
-        if let Some(ref selinux_type) = self.selinux_type {
+        if let Some(selinux_type) = self.raw.get_bytes(b"selinux_type") {
             let mut flag = b"--type ".to_vec();
-            flag.extend_from_slice(selinux_type.as_bytes());
+            flag.extend_from_slice(selinux_type);
 
             flags.push(flag);
         }
 
-        if let Some(ref bsd_auth_type) = self.bsd_auth_type {
+        if let Some(bsd_auth_type) = self.raw.get_bytes(b"bsdauth_type") {
             let mut flag = b"--auth-type ".to_vec();
-            flag.extend_from_slice(bsd_auth_type.as_bytes());
+            flag.extend_from_slice(bsd_auth_type);
 
             flags.push(flag);
         }
@@ -266,6 +268,20 @@ impl Settings {
             flags.push(flag);
         }
 
+        if let Some(remote_host) = self.raw.get_bytes(b"remote_host") {
+            let mut flag = b"--host ".to_vec();
+            flag.extend_from_slice(remote_host);
+
+            flags.push(flag);
+        }
+
+        if let Some(timeout) = self.raw.get_bytes(b"timeout") {
+            let mut flag = b"--command-timeout ".to_vec();
+            flag.extend_from_slice(timeout);
+
+            flags.push(flag);
+        }
+
         flags
     }
 }
-- 
2.43.0


From 08595bd890554683d85e5283dee8d22ed1a07d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 11/20] fix: don't evaluate sudo_approve's arguments as
 arithmetic

`sudo_approve 'a[$(cmd)]' 1` ran cmd, through sudo and without a pair.
---
 sample/bin/sudo_approve | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sample/bin/sudo_approve b/sample/bin/sudo_approve
index ec412ef..e6bc19b 100755
--- a/sample/bin/sudo_approve
+++ b/sample/bin/sudo_approve
@@ -104,6 +104,13 @@ main() {
     fi
 }
 
+# arguments that aren't plain numbers would be evaluated as arithmetic
+# expressions, which can run commands (this script may be run as another
+# user without needing a pair, so that must be impossible)
+for arg in "$@"; do
+    [[ "${arg}" =~ ^(0|[1-9][0-9]*)$ ]] || usage
+done
+
 case "$#" in
     2) main "${SUDO_SOCKET_PATH}" "$1" "$2" ;;
     *) usage ;;
-- 
2.43.0


From 5fd0cb3f49cdcaa83fe542c276b0178101543a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 12/20] fix: show the command's own working directory even if
 it isn't UTF-8

The pair was shown the invoking user's directory instead.
---
 sudo_plugin/src/options/command_info.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index faeb3b0..9d438be 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -256,6 +256,8 @@ impl TryFrom<OptionMap> for CommandInfo {
             command:       value.get_bytes(b"command")
                 .map(|command| OsStr::from_bytes(command).into())
                 .unwrap_or_default(),
+            cwd:           value.get_bytes(b"cwd")
+                .map(|cwd| OsStr::from_bytes(cwd).into()),
             runas_gid,
             runas_uid,
             runas_egid:    value.get("runas_egid").unwrap_or(runas_gid),
@@ -266,7 +268,6 @@ impl TryFrom<OptionMap> for CommandInfo {
 
             chroot:            value.get("chroot")            .ok(),
             close_from:        value.get("closefrom")         .ok(),
-            cwd:               value.get("cwd")               .ok(),
             exec_background:   value.get("exec_background")   .unwrap_or(false),
             exec_fd:           value.get("execfd")            .ok(),
             iolog_compress:    value.get("iolog_compress")    .unwrap_or(false),
-- 
2.43.0


From cd2a40bbe4a5825a803723f209182371cc75b4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 13/20] fix: catch panics while an error is converted into a
 status

The conversion of a plugin's error into a LogStatus ran outside of
catch_unwind, so a panic in it aborted sudo.
---
 sudo_plugin/src/core.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sudo_plugin/src/core.rs b/sudo_plugin/src/core.rs
index 86e5619..dfcd113 100644
--- a/sudo_plugin/src/core.rs
+++ b/sudo_plugin/src/core.rs
@@ -120,11 +120,13 @@ impl<T: Into<LogStatus>> From<std::thread::Result<T>> for LogStatus {
 }
 
 fn catch_unwind_open<T: std::fmt::Debug + Into<OpenStatus>, F: FnOnce() -> T + UnwindSafe>(f: F) -> i32 {
-    Into::<OpenStatus>::into(catch_unwind(f)) as _
+    // the conversion is the plugin's code as well
+    Into::<OpenStatus>::into(catch_unwind(|| -> OpenStatus { f().into() })) as _
 }
 
 fn catch_unwind_log<T: Into<LogStatus>, F: FnOnce() -> T + UnwindSafe>(f: F) -> i32 {
-    Into::<LogStatus>::into(catch_unwind(f)) as _
+    // the conversion is the plugin's code as well
+    Into::<LogStatus>::into(catch_unwind(|| -> LogStatus { f().into() })) as _
 }
 
 #[doc(hidden)]
-- 
2.43.0


From 66bfce78effb53a1129d54ab59de8004996263d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 14/20] fix: never drop the payload of a caught panic

Dropping it may panic again, outside of catch_unwind, which aborted sudo.
---
 sudo_plugin/src/core.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/sudo_plugin/src/core.rs b/sudo_plugin/src/core.rs
index dfcd113..6b77a65 100644
--- a/sudo_plugin/src/core.rs
+++ b/sudo_plugin/src/core.rs
@@ -25,6 +25,8 @@ use crate::output::PrintFacility;
 use crate::plugin::{IoEnv, IoPlugin, IoState};
 use crate::sys;
 
+use std::any::Any;
+use std::mem::forget;
 use std::os::raw;
 use std::path::PathBuf;
 use std::panic::{catch_unwind, UnwindSafe};
@@ -105,7 +107,10 @@ impl<T: Into<OpenStatus>> From<std::thread::Result<T>> for OpenStatus {
     fn from(result: std::thread::Result<T>) -> Self {
         match result {
             Ok(v)  => v.into(),
-            Err(_) => Error::UncaughtPanic.into(),
+            Err(e) => {
+                forget_panic(e);
+                Error::UncaughtPanic.into()
+            },
         }
     }
 }
@@ -114,11 +119,20 @@ impl<T: Into<LogStatus>> From<std::thread::Result<T>> for LogStatus {
     fn from(result: std::thread::Result<T>) -> Self {
         match result {
             Ok(v)  => v.into(),
-            Err(_) => Error::UncaughtPanic.into(),
+            Err(e) => {
+                forget_panic(e);
+                Error::UncaughtPanic.into()
+            },
         }
     }
 }
 
+/// Gets rid of the payload of a caught panic. It's never dropped, since
+/// that might panic as well.
+fn forget_panic(payload: Box<dyn Any + Send>) {
+    forget(payload);
+}
+
 fn catch_unwind_open<T: std::fmt::Debug + Into<OpenStatus>, F: FnOnce() -> T + UnwindSafe>(f: F) -> i32 {
     // the conversion is the plugin's code as well
     Into::<OpenStatus>::into(catch_unwind(|| -> OpenStatus { f().into() })) as _
@@ -195,9 +209,11 @@ pub unsafe extern "C" fn close<P: IoPlugin, S: IoState<P>>(
     exit_status: raw::c_int,
     error:       raw::c_int,
 ) {
-    drop(catch_unwind(|| {
+    if let Err(e) = catch_unwind(|| {
         S::drop(|plugin| plugin.close(exit_status, error));
-    }));
+    }) {
+        forget_panic(e);
+    }
 }
 
 #[doc(hidden)]
-- 
2.43.0


From 501792259fa2633a27c549401712caeb7c265ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 15/20] fix: drop the environment even if closing the plugin
 panics

---
 sudo_plugin/src/core.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sudo_plugin/src/core.rs b/sudo_plugin/src/core.rs
index 6b77a65..4f6341b 100644
--- a/sudo_plugin/src/core.rs
+++ b/sudo_plugin/src/core.rs
@@ -213,6 +213,11 @@ pub unsafe extern "C" fn close<P: IoPlugin, S: IoState<P>>(
         S::drop(|plugin| plugin.close(exit_status, error));
     }) {
         forget_panic(e);
+
+        // the plugin is gone but its environment was left behind
+        if let Err(e) = catch_unwind(|| S::drop(|_| ())) {
+            forget_panic(e);
+        }
     }
 }
 
-- 
2.43.0


From 6fefc44a577dbfa3eadf1521b9278e6e899eab54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:52 +0000
Subject: [PATCH 16/20] fix: don't change the approver's terminal if its
 settings can't be saved

---
 sample/bin/sudo_approve | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sample/bin/sudo_approve b/sample/bin/sudo_approve
index e6bc19b..edbf195 100755
--- a/sample/bin/sudo_approve
+++ b/sample/bin/sudo_approve
@@ -25,9 +25,14 @@ declare -r SUDO_SOCKET_PATH="/var/run/sudo_pair"
 pair() {
     declare -r socket="${1}"
 
-    # restore TTY settings on exit
+    # restore TTY settings on exit; if they can't be determined, we quit
+    # before changing any
+    declare settings
+    settings="$(stty -g)"
+    declare -r settings
+
     # shellcheck disable=SC2064
-    trap "stty $(stty -g)" EXIT
+    trap "stty ${settings}" EXIT
 
     # disable line-buffering and local echo, so the pairer doesn't
     # get confused that their typing in the shell isn't doing
-- 
2.43.0


From 4a0e5c5904fd313a793181fc12ca4677c975f9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:59 +0000
Subject: [PATCH 17/20] fix: report sudo_pair's own version instead of
 sudo_plugin's

---
 sudo_pair/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index 0bf8ffa..ba7e569 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -109,7 +109,8 @@ struct SudoPair {
 impl IoPlugin for SudoPair {
     type Error = Error;
 
-    const NAME: &'static str = "sudo_pair";
+    const NAME:    &'static str = "sudo_pair";
+    const VERSION: &'static str = env!("CARGO_PKG_VERSION");
 
     // the policy's hints only decide whether a session must be paired
     // (see `is_exempted_from_logging`); once it must, all of its output is
-- 
2.43.0


From c1d058f9220585d94be4dbfe5e13e11d5556513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 18/20] fix: log sessions whose arguments exceed the system
 logger's limits

---
 sudo_pair/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index ba7e569..a597817 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -96,6 +96,10 @@ const DEFAULT_GIDS_ENFORCED    : [gid_t; 1] = [0];
 const DEFAULT_USER_PROMPT : &[u8] = b"%B %u %p\n";
 const DEFAULT_PAIR_PROMPT : &[u8] = b"%U@%h:%d$ %C\ny/n? [n]: ";
 
+// the system logger drops messages that exceed its limits, so we only
+// log the beginning of arguments longer than this many characters
+const MAX_LOGGED_ARGS : usize = 4096;
+
 sudo_io_plugin!{ sudo_pair : SudoPair }
 
 struct SudoPair {
@@ -132,7 +136,7 @@ impl IoPlugin for SudoPair {
             "runas_euid"    => &env.command_info.runas_euid,
             "runas_egid"    => &env.command_info.runas_egid,
             "command"       => env.command_info.command.to_string_lossy().into_owned(),
-            "args"          => format!("{:?}", args),
+            "args"          => format!("{:?}", args).chars().take(MAX_LOGGED_ARGS).collect::<String>(),
         ));
 
         let options = PluginOptions::from(&env.plugin_options);
-- 
2.43.0


From cc5cb41f209c23e9e7485a26ffba98ab0278e3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:48 +0000
Subject: [PATCH 19/20] fix: let Ctrl-C end the wait for a pair who doesn't
 take the prompt

---
 sudo_pair/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index a597817..3ca923d 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -362,9 +362,16 @@ impl SudoPair {
             .ok_or(ErrorKind::CommunicationError)?
             .borrow_mut();
 
-        socket.write_all(&prompt[..])
+        // write the prompt with exactly one call (`write_all` isn't used
+        // because it will capture Ctrl-C and retry the write); a blocking
+        // socket only takes less than all of it when it's interrupted
+        let written = socket.write(&prompt[..])
             .context(ErrorKind::CommunicationError)?;
 
+        if written != prompt.len() {
+            return Err(ErrorKind::CommunicationError.into());
+        }
+
         socket.flush()
             .context(ErrorKind::CommunicationError)?;
 
-- 
2.43.0


From b675a964fdb2a68c735ec5d05e5417fae69fecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:17 +0000
Subject: [PATCH 20/20] fix: have every key reach the session at once whatever
 the terminal's min and time

---
 sample/bin/sudo_approve | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sample/bin/sudo_approve b/sample/bin/sudo_approve
index edbf195..bae73cd 100755
--- a/sample/bin/sudo_approve
+++ b/sample/bin/sudo_approve
@@ -36,8 +36,9 @@ pair() {
 
     # disable line-buffering and local echo, so the pairer doesn't
     # get confused that their typing in the shell isn't doing
-    # anything
-    stty cbreak -echo
+    # anything; `cbreak` leaves alone how many bytes a read waits for,
+    # which something else may have set to more than one
+    stty cbreak -echo min 1 time 0
 
     # send SIGINT on Ctrl-D
     stty intr "^D"
-- 
2.43.0

